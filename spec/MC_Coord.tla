------------------------------- MODULE MC_Coord -------------------------------
(* Bounded model: every iterator over every box up to N, from every start;  *)
(* plus the order, arithmetic and conversion laws over a small cube.        *)
EXTENDS Coord
CONSTANTS N, L
VARIABLES t, ar, start, cur, seen
vars == <<t, ar, start, cur, seen>>

Range(tt) == IF tt = "O" THEN 0..N ELSE (-1)..N
Init == /\ t \in CT
        /\ \E x \in 0..N, y \in 0..N, z \in 0..1 : ar = At(x, y, z)
        /\ \E x \in Range(t), y \in Range(t), z \in 0..1 : start = At(x, y, z)
        /\ cur = IterStart(t, ar, start)
        /\ seen = {}
Advance == /\ ~cur.d
           /\ seen' = seen \cup {cur}
           /\ cur' = IterNext(t, ar, cur)
           /\ UNCHANGED <<t, ar, start>>
Next == Advance

\* every visited coordinate lies in the box, comes in ascending order, and none is skipped
InBox    == ~cur.d => cur \in Box(ar)
Ordered  == \A c \in seen : cur.d \/ LtC(t, c, cur)
Complete == cur.d => seen = {c \in Box(ar) : ~IterStart(t, ar, start).d /\ ~LtC(t, c, IterStart(t, ar, start))}
EndMark  == cur.d => cur = Dead(ar)

S == {At(x, y, z) : x \in (-L)..L, y \in (-L)..L, z \in 0..1}
TotalOrder == \A tt \in CT : \A a, b \in S :
                /\ Cardinality({p \in {1,2,3} : CASE p = 1 -> LtC(tt, a, b) [] p = 2 -> a = b [] p = 3 -> LtC(tt, b, a)}) = 1
                /\ \A c \in S : LtC(tt, a, b) /\ LtC(tt, b, c) => LtC(tt, a, c)
Laws == \A a, b \in S :
          /\ \A tt \in {"C", "S"} : SubC(tt, AddC(tt, a, b), b) = a
          /\ AddC("S", a, b) = AddC("S", b, a)
          /\ ToSiqad(ToFiction(a)) = a
          /\ ToFiction(ToSiqad([a EXCEPT !.z = 0])) = [a EXCEPT !.z = 0]
          /\ (Row(a) < Row(b)) => LtC("S", a, b)
          /\ W!ToInt(Area("C", a)) = Cardinality({p \in S : p.z = 0 /\ p.x \in 0..Abs(a.x) /\ p.y \in 0..Abs(a.y)})
ASSUME TotalOrder /\ Laws
=============================================================================
