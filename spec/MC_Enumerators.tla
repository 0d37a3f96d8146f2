--------------------------- MODULE MC_Enumerators ---------------------------
(* Bounded model: one aspect-ratio iterator from 1 up to M faces in every    *)
(* admissible delivery order, and a Gray iterator walking 0 .. 2^B - 1.      *)
EXTENDS Enumerators
CONSTANTS M, B
VARIABLES it, out, g, gseen
vars == <<it, out, g, gseen>>
Init == /\ \E r \in Factors(1) : it = ARFirst(1, r)
        /\ out = {} /\ g = [start |-> W!Zero(8), pos |-> W!Zero(8)] /\ gseen = {}
Walk == /\ it.num <= M
        /\ \E r \in ARNexts(it) : it' = ARNext(it, r)
        /\ out' = out \cup {<<it.num, it.cur>>}
        /\ UNCHANGED <<g, gseen>>
Code == /\ Cardinality(gseen) < 2^B
        /\ it.num = 1
        /\ gseen' = gseen \cup {Gray(g.pos)}
        /\ g' = GAdvance(g, 1)
        /\ UNCHANGED <<it, out>>
Next == Walk \/ Code
NoRepeat == <<it.num, it.cur>> \notin out
AllOf    == \A n \in 1..(it.num - 1) : {p[2] : p \in {q \in out : q[1] = n}} = Factors(n)
Sound    == \A p \in out : (p[2][1] + 1) * (p[2][2] + 1) = p[1]
GrayBij  == W!ToInt(g.pos) = Cardinality(gseen)                 \* no code delivered twice
GrayRange == \A c \in gseen : W!ToInt(c) < 2^B                   \* 2^B steps enumerate exactly B-bit words
GrayStep == \A k \in 0..(2^B - 2) : Hamming(Gray(W!FromInt(k, 8)), Gray(W!FromInt(k+1, 8))) = 1
ASSUME GrayStep
=============================================================================
