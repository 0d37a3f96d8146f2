------------------------------ MODULE Topology ------------------------------
(***************************************************************************)
(* Finite tile grids: Cartesian, and the four hexagonal offset             *)
(* arrangements (shifted Cartesian grids are these, too).  A grid is a     *)
(* record [arr, X, Y, Z] with inclusive maxima.  Coordinates are <<x,y,z>>.*)
(* y grows southwards.  Hexagonal adjacency is defined geometrically: in   *)
(* row arrangements a row is shifted by half a tile (odd rows in odd_row,  *)
(* even rows in even_row), likewise columns; tiles touch iff their centres *)
(* are one tile apart.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Inside(g, c) == c[1] \in 0..g.X /\ c[2] \in 0..g.Y /\ c[3] \in 0..g.Z
Coords(g) == (0..g.X) \X (0..g.Y) \X (0..g.Z)
IsCart(g) == g.arr = "cart"
RowHex(g) == g.arr \in {"odd_row", "even_row"}
ColHex(g) == g.arr \in {"odd_col", "even_col"}
Shifted(g, p) == IF g.arr \in {"odd_row", "odd_col"} THEN p % 2 = 1 ELSE p % 2 = 0

\* centre of a tile in half-tile units along the shifted axis
CX(g, c) == IF RowHex(g) THEN 2*c[1] + (IF Shifted(g, c[2]) THEN 1 ELSE 0) ELSE c[1]
CY(g, c) == IF ColHex(g) THEN 2*c[2] + (IF Shifted(g, c[1]) THEN 1 ELSE 0) ELSE c[2]

\* unclipped direction vectors as predicates on pairs of tiles
Dir(g, c, d) ==   \* the tile in direction d, ignoring bounds; hexagonal diagonals depend on the row/column parity
  LET x == c[1]  y == c[2]  z == c[3]
      right == IF Shifted(g, y) THEN 1 ELSE 0      \* extra x for an eastward diagonal in a row arrangement
      down  == IF Shifted(g, x) THEN 1 ELSE 0      \* extra y for a southward diagonal in a column arrangement
  IN CASE d = "n" -> <<x, y-1, z>> [] d = "s" -> <<x, y+1, z>>
       [] d = "e" -> <<x+1, y, z>> [] d = "w" -> <<x-1, y, z>>
       [] d = "u" -> <<x, y, z+1>> [] d = "d" -> <<x, y, z-1>>
       [] d = "ne" -> IF IsCart(g) THEN <<x+1, y-1, z>> ELSE IF RowHex(g) THEN <<x+right, y-1, z>> ELSE <<x+1, y-1+down, z>>
       [] d = "se" -> IF IsCart(g) THEN <<x+1, y+1, z>> ELSE IF RowHex(g) THEN <<x+right, y+1, z>> ELSE <<x+1, y+down, z>>
       [] d = "sw" -> IF IsCart(g) THEN <<x-1, y+1, z>> ELSE IF RowHex(g) THEN <<x-1+right, y+1, z>> ELSE <<x-1, y+down, z>>
       [] d = "nw" -> IF IsCart(g) THEN <<x-1, y-1, z>> ELSE IF RowHex(g) THEN <<x-1+right, y-1, z>> ELSE <<x-1, y-1+down, z>>
\* a step over the border stays where it is
Go(g, c, d) == IF Inside(g, Dir(g, c, d)) THEN Dir(g, c, d) ELSE c

\* edge-sharing neighbours, defined by geometry and not by the direction table
Touch(g, a, b) ==
  /\ a # b /\ a[3] = b[3]
  /\ LET dx == CX(g, a) - CX(g, b)  dy == CY(g, a) - CY(g, b)  ab(n) == IF n < 0 THEN -n ELSE n
     IN CASE IsCart(g) -> ab(dx) + ab(dy) = 1
          [] RowHex(g) -> (dy = 0 /\ ab(dx) = 2) \/ (ab(dy) = 1 /\ ab(dx) = 1)
          [] ColHex(g) -> (dx = 0 /\ ab(dy) = 2) \/ (ab(dx) = 1 /\ ab(dy) = 1)
Around(c) == ((c[1]-1)..(c[1]+1)) \X ((c[2]-1)..(c[2]+1)) \X {c[3]}
Adjacent(g, c) == {b \in Around(c) : Inside(g, b) /\ Touch(g, c, b)}

\* pairs of neighbours on opposite sides: the centre lies halfway between theirs
OppositePairs(g, c) == {{a, b} : a \in Adjacent(g, c), b \in Adjacent(g, c)} \cap
   {p \in SUBSET Adjacent(g, c) : Cardinality(p) = 2 /\ \E a, b \in p : a # b
        /\ CX(g, a) + CX(g, b) = 2 * CX(g, c) /\ CY(g, a) + CY(g, b) = 2 * CY(g, c)}

AdjElevation(g, a, b) == \E k \in {a, Go(g, a, "u"), Go(g, a, "d")} : b \in Adjacent(g, k)
North(g, c) == c[2] = 0
East(g, c)  == c[1] = g.X
South(g, c) == c[2] = g.Y
West(g, c)  == c[1] = 0
Volume(g) == (g.X+1) * (g.Y+1) * (g.Z+1)
\* number of faces; SiQAD dimers have two sites per face
Area(g, siqad) == (g.X+1) * (g.Y+1) * (IF siqad THEN 2 ELSE 1)
\* enumeration order: z slowest, then y, then x
Seq3(g) == [k \in 1..Volume(g) |-> LET n == k-1 IN <<n % (g.X+1), (n \div (g.X+1)) % (g.Y+1), n \div ((g.X+1)*(g.Y+1))>>]
Ground(g) == [g EXCEPT !.Z = 0]
=============================================================================
