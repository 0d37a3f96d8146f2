----------------------------- MODULE Enumerators -----------------------------
(***************************************************************************)
(* The two enumerators of fiction/algorithms/iter as state machines over   *)
(* named iterator objects ("slots").                                       *)
(* Aspect ratios: an iterator is <<num, done, cur>>: it stands on the      *)
(* factorization cur of num faces, having already delivered done.          *)
(* Gray codes: an iterator is <<start, pos>> (64-bit words).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
W == INSTANCE Words

\* all (x, y) with (x+1)(y+1) = n
Root(n) == IF n <= 100 THEN 10 ELSE IF n <= 10000 THEN 100 ELSE IF n <= 1000000 THEN 1000 ELSE 46340   \* >= sqrt(n)
Factors(n) == UNION {{<<k-1, n \div k - 1>>, <<n \div k - 1, k-1>>} : k \in {d \in 1..Root(n) : d * d <= n /\ n % d = 0}}

ARFirst(n, r)  == [num |-> n, done |-> {}, cur |-> r]
ARLegalStart(n, r) == r \in Factors(n)
\* numbers of faces an iterator may stand on after one more increment
ARNum(it) == IF Cardinality(it.done) + 1 = Cardinality(Factors(it.num)) THEN it.num + 1 ELSE it.num
ARDone(it) == IF ARNum(it) = it.num THEN it.done \cup {it.cur} ELSE {}
ARNexts(it) == Factors(ARNum(it)) \ ARDone(it)
ARNext(it, r) == [num |-> ARNum(it), done |-> ARDone(it), cur |-> r]
AREq(a, b) == a.num = b.num /\ a.cur = b.cur
\* within one number of faces, iterators are ordered by their factorization (row-major: y, then x)
RatioLt(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
ARLt(a, b) == a.num < b.num \/ (a.num = b.num /\ RatioLt(a.cur, b.cur))

------------------------------------------------------------------------------
Gray(p) == W!XorW(p, W!Shr1(p))
FromSigned(m) == IF m >= 0 THEN W!FromInt(m, 8) ELSE W!Sub(W!Zero(8), W!FromInt(-m, 8))
GAdvance(it, m) == [it EXCEPT !.pos = W!Add(@, FromSigned(m))]
Bits(a) == [k \in 0..63 |-> (a[(k \div 8) + 1] \div (2^(k % 8))) % 2]
Hamming(a, b) == Cardinality({k \in 0..63 : Bits(a)[k] # Bits(b)[k]})
=============================================================================
