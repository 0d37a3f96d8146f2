------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* Combinatorial enumeration, number helpers, container and search         *)
(* helpers, and delimited text output of fiction/utils and fiction/io.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
W == INSTANCE Words

(* Pascal's triangle as a state machine: the state is row n *)
Row0 == <<W!FromInt(1, 9)>>                     \* nine digits: room to see a 64-bit overflow
NextRow(r) == [k \in 1..(Len(r)+1) |-> IF k = 1 \/ k = Len(r)+1 THEN W!FromInt(1, 9) ELSE W!Add(r[k-1], r[k])]
Fits(w) == w[9] = 0
Low(w) == SubSeq(w, 1, 8)

\* strictly ascending sequences of length k over 0..n-1 <-> k-subsets
Ascending(s) == \A p \in 1..(Len(s)-1) : s[p] < s[p+1]
SubsetsOf(n, k) == {S \in SUBSET (0..(n-1)) : Cardinality(S) = k}
RangeOf(s) == {s[p] : p \in 1..Len(s)}

RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))
Count(q, x) == Cardinality({p \in 1..Len(q) : q[p] = x})

\* smallest index at which two consecutive elements of a occur consecutively in b; Len(a)+1 if none
PairAt(a, p, b) == \E r \in 1..(Len(b)-1) : a[p] = b[r] /\ a[p+1] = b[r+1]
FirstTwoOf(a, b) == IF \E p \in 1..(Len(a)-1) : PairAt(a, p, b)
                    THEN CHOOSE p \in 1..(Len(a)-1) : PairAt(a, p, b) /\ \A q \in 1..(p-1) : ~PairAt(a, q, b)
                    ELSE Len(a) + 1

(* a priority queue is a bag of priorities; "less" yields the largest first *)
PQPush(b, x) == [y \in DOMAIN b \cup {x} |-> (IF y \in DOMAIN b THEN b[y] ELSE 0) + (IF y = x THEN 1 ELSE 0)]
PQTop(b, cmp) == CHOOSE x \in DOMAIN b : \A y \in DOMAIN b : IF cmp = "less" THEN y <= x ELSE x <= y
PQPop(b, cmp) == LET x == PQTop(b, cmp)
                 IN [y \in (IF b[x] = 1 THEN DOMAIN b \ {x} ELSE DOMAIN b) |-> b[y] - (IF y = x THEN 1 ELSE 0)]
RECURSIVE SumOver(_, _)
SumOver(b, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE z \in D : TRUE IN b[x] + SumOver(b, D \ {x})
PQSize(b) == SumOver(b, DOMAIN b)

Abs(n) == IF n < 0 THEN -n ELSE n
\* keys and probe in units of 1e-9; tolerance 1e-6 = 1000 units; first key in ascending order
TolFind(keys, x) == LET hits == {p \in 1..Len(keys) : Abs(keys[p] - x) < 1000}
                    IN IF hits = {} THEN 0 ELSE CHOOSE p \in hits : \A q \in hits : p <= q

RECURSIVE Joined(_)
Joined(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Joined(Tail(q))
RECURSIVE Document(_)
Document(ls) == IF ls = <<>> THEN "" ELSE (IF Len(Head(ls)) = 0 THEN "" ELSE Joined(Head(ls))) \o "\n" \o Document(Tail(ls))

\* round half away from zero of num/den
RoundDiv(num, den) == IF num >= 0 THEN (2*num + den) \div (2*den) ELSE -((2*(-num) + den) \div (2*den))
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))
=============================================================================
