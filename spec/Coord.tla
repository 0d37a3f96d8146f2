-------------------------------- MODULE Coord --------------------------------
(***************************************************************************)
(* Coordinates of fiction layouts: three types                             *)
(*   "O"  offset::ucoord_t  (x,y 31 bit unsigned, z 1 bit, dead flag)      *)
(*   "C"  cube::coord_t     (signed x,y,z, dead flag)                      *)
(*   "S"  siqad::coord_t    (signed x,y, z in {0,1} = dimer half, dead)    *)
(* A coordinate is a record [x,y,z,d] with d \in BOOLEAN ("dead").          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
W == INSTANCE Words

CT == {"O", "C", "S"}
At(x, y, z) == [x |-> x, y |-> y, z |-> z, d |-> FALSE]
Dead(c)     == [c EXCEPT !.d = TRUE]

------------------------------------------------------------------------------
(* identity and order *)
EqC(a, b) == a = b
\* layer-major for offset/cube, row-major (row = 2y+z) for SiQAD; the flag plays no role
LexLess(p, q) == \/ p[1] < q[1]
                 \/ p[1] = q[1] /\ p[2] < q[2]
                 \/ p[1] = q[1] /\ p[2] = q[2] /\ p[3] < q[3]
Key(t, c)     == IF t = "S" THEN <<c.y, c.z, c.x>> ELSE <<c.z, c.y, c.x>>
LtC(t, a, b)  == LexLess(Key(t, a), Key(t, b))

\* packing of an offset coordinate into a 64-bit word: d | z | y(31) | x(31)
Pack(c) == W!Add(W!Shl(W!FromInt(IF c.d THEN 1 ELSE 0, 8), 63),
           W!Add(W!Shl(W!FromInt(c.z, 8), 62),
           W!Add(W!Shl(W!FromInt(c.y, 8), 31), W!FromInt(c.x, 8))))

Str(c) == "(" \o ToString(c.x) \o "," \o ToString(c.y) \o "," \o ToString(c.z) \o ")"

------------------------------------------------------------------------------
(* regions: wrapping, enumeration, size *)
WrapOC(c, ar) ==
  LET c1 == IF c.x > ar.x THEN [c EXCEPT !.x = 0, !.y = @ + 1] ELSE c
      c2 == IF c1.y > ar.y THEN [c1 EXCEPT !.y = 0, !.z = @ + 1] ELSE c1
  IN IF c2.z > ar.z THEN Dead(ar) ELSE c2
WrapS(c, ar) ==
  LET c1 == IF c.x > ar.x THEN [c EXCEPT !.x = 0, !.z = @ + 1] ELSE c
      c2 == IF c1.z > ar.z THEN [c1 EXCEPT !.z = 0, !.y = @ + 1] ELSE c1
  IN IF c2.y > ar.y THEN Dead(ar) ELSE c2
Wrap(t, c, ar) == IF t = "S" THEN WrapS(c, ar) ELSE WrapOC(c, ar)

NonNeg(c) == [c EXCEPT !.x = IF @ < 0 THEN 0 ELSE @, !.y = IF @ < 0 THEN 0 ELSE @, !.z = IF @ < 0 THEN 0 ELSE @]
IterStart(t, ar, s) == Wrap(t, NonNeg(s), ar)
IterNext(t, ar, c)  == IF c = ar THEN Dead(c) ELSE Wrap(t, [c EXCEPT !.x = @ + 1], ar)

Box(ar) == {At(x, y, z) : x \in 0..ar.x, y \in 0..ar.y, z \in 0..ar.z}

Abs(n) == IF n < 0 THEN -n ELSE n
PlusOne(n) == W!Add(W!FromInt(n, 8), W!FromInt(1, 8))
Area(t, c) == IF t = "S"
  THEN W!Mul(PlusOne(Abs(c.x)), W!Add(W!Shl(W!FromInt(Abs(c.y), 8), 1), PlusOne(c.z)))
  ELSE W!Mul(PlusOne(Abs(c.x)), PlusOne(Abs(c.y)))
Volume(t, c) == IF t = "S" THEN Area(t, c) ELSE W!Mul(Area(t, c), PlusOne(Abs(c.z)))

------------------------------------------------------------------------------
(* arithmetic and conversion.  Row(c) = 2y+z is a SiQAD coordinate's absolute row *)
Row(c) == 2 * c.y + c.z
FromRow(x, r) == At(x, r \div 2, r % 2)        \* TLA+ \div and % are floored
AddC(t, a, b) == IF t = "S" THEN FromRow(a.x + b.x, Row(a) + Row(b)) ELSE At(a.x + b.x, a.y + b.y, a.z + b.z)
SubC(t, a, b) == IF t = "S" THEN FromRow(a.x - b.x, Row(a) - Row(b)) ELSE At(a.x - b.x, a.y - b.y, a.z - b.z)

MaxI == 2147483647
MinI == -2147483647 - 1
\* rows outside the 32-bit range saturate
ToFictionY(c) == IF c.y > 1073741823 THEN MaxI
                 ELSE IF c.y < -1073741824 THEN MinI
                 ELSE (c.y + c.y) + c.z
ToFiction(c) == At(c.x, ToFictionY(c), 0)
ToSiqad(c)   == At(c.x, c.y \div 2, c.y % 2)
ToCube(c)    == IF c.d THEN [x |-> 0, y |-> 0, z |-> 0, d |-> TRUE] ELSE c
=============================================================================
