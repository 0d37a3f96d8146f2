-------------------------------- MODULE Sidb --------------------------------
(***************************************************************************)
(* The physical model behind SiDB simulation.  A system S consists of n    *)
(* silicon dangling bonds (sites 1..n) that carry a charge of -1, 0 or +1  *)
(* elementary charges and of charged defects:                              *)
(*   V[i][j]  potential a unit charge at site j causes at site i           *)
(*   ext[i]   external potential at site i                                 *)
(*   d        defects: charge q, w[i] = potential a unit charge at the     *)
(*            defect causes at site i, u[i] = potential a unit charge at   *)
(*            site i causes at the defect, x[k] = potential a unit charge  *)
(*            at defect k causes there, e = external potential there       *)
(*   lo, hi   energy levels mu_- and mu_+ (hi < lo)                        *)
(* All potentials are integers (1 unit = 10 nV when traces are validated). *)
(* Eps is the margin within which the code treats energies as equal; T is  *)
(* the rounding uncertainty of the integers: what is Clear at T must be    *)
(* accepted by an implementation, what is not Possible at T must not.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Eps, T

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(f) == SumTo(f, Len(f))
Within(a, b, t) == a - b <= t /\ b - a <= t

Sites(S) == 1..S.n
\* potential caused by the defects at a site
FromDefects(S, i) == Total([k \in 1..Len(S.d) |-> S.d[k].q * S.d[k].w[i]])
\* internal potential: caused by the charges of the sites and the defects
Internal(S, c, i) == FromDefects(S, i) + Total([j \in 1..S.n |-> S.V[i][j] * c[j]])
Local(S, c, i) == Internal(S, c, i) + S.ext[i]
Locals(S, c) == [i \in 1..S.n |-> Local(S, c, i)]

\* Twice the energy of the system under the charge configuration c.
PairSum(S, c) == Total([i \in 1..S.n |-> IF c[i] = 0 THEN 0 ELSE c[i] * Total([j \in 1..(i - 1) |-> S.V[i][j] * c[j]])])
Energy2(S, c) ==
  2 * PairSum(S, c) + Total([i \in 1..S.n |-> c[i] * (2 * S.ext[i] + FromDefects(S, i))])
  + Total([k \in 1..Len(S.d) |-> S.d[k].q * (2 * S.d[k].e + Total([i \in 1..S.n |-> c[i] * S.d[k].u[i]])
                                              + Total([m \in 1..Len(S.d) |-> S.d[m].q * S.d[k].x[m]]))])

(* Population stability: no site gains by exchanging an electron with the  *)
(* bulk.  Configuration stability: no electron gains by hopping from one   *)
(* site to another.                                                        *)
Populated(S, c, L, t) == \A i \in 1..S.n :
  CASE c[i] = -1 -> S.lo - L[i] < Eps + t
    [] c[i] = 1  -> S.hi - L[i] > -(Eps + t)
    [] OTHER     -> S.lo - L[i] > -(Eps + t) /\ S.hi - L[i] < Eps + t
HopGain(S, L, i, j) == L[i] - L[j] - S.V[i][j]      \* energy after minus energy before
Unhopping(S, c, L, t) == \A i, j \in 1..S.n : c[i] < c[j] => HopGain(S, L, i, j) >= -(Eps + t)
Valid(S, c, t) == \E L \in {Locals(S, c)} : Populated(S, c, L, t) /\ Unhopping(S, c, L, t)
Clear(S, c) == Valid(S, c, -T)
Possible(S, c) == Valid(S, c, T)

Configs(S, b) == [1..S.n -> IF b = 3 THEN {-1, 0, 1} ELSE {-1, 0}]
ValidSet(S, b) == {c \in Configs(S, b) : Clear(S, c)}
PossibleSet(S, b) == {c \in Configs(S, b) : Possible(S, c)}

\* Sites that are negative in every valid configuration, and those that can be positive in one.
AllNegative(S) == [i \in 1..S.n |-> -1]
SurelyNegative(S, t) == {i \in 1..S.n : S.lo - Local(S, AllNegative(S), i) < -(Eps + t)}
MayBePositive(S, t) == {i \in 1..S.n : S.hi - Local(S, AllNegative(S), i) > -(Eps + t)}

\* The index of a configuration: its digits, most significant site first, one per site except the dependent one.
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
RECURSIVE IndexUpTo(_, _, _, _)
IndexUpTo(c, b, dep, k) ==
  IF k = 0 THEN 0
  ELSE IF k = dep THEN IndexUpTo(c, b, dep, k - 1)
       ELSE b * IndexUpTo(c, b, dep, k - 1) + (c[k] + 1)
Index(c, b, dep) == IndexUpTo(c, b, dep, Len(c))
MaxIndex(n, b, dep) == Power(b, IF dep = 0 THEN n ELSE n - 1) - 1
Digit(ix, b, p) == (ix \div Power(b, p)) % b
\* how many sites with digits follow site k
Behind(n, dep, k) == (n - k) - (IF dep > k THEN 1 ELSE 0)
FromIndex(n, ix, b, dep, old) == [k \in 1..n |-> IF k = dep THEN old ELSE Digit(ix, b, Behind(n, dep, k)) - 1]

\* charge of a site whose charge follows from the others
Follows(S, c, i, b, x) == \E L \in {Local(S, [c EXCEPT ![i] = 0], i)} :
  CASE x = -1 -> S.lo - L < Eps + T \/ (b = 2 /\ S.hi - L > -(Eps + T))
    [] x = 0 -> (S.lo - L > Eps - T /\ S.hi - L < T - Eps) \/ (b = 2 /\ S.hi - L > -(Eps + T))
    [] OTHER -> b = 3 /\ S.hi - L > -(Eps + T)

(* Simulation results: sequences of configurations.                        *)
Ran(A) == {A[k] : k \in 1..Len(A)}
Lowest(S, A, t) == {c \in Ran(A) : \A c2 \in Ran(A) : Energy2(S, c) - Energy2(S, c2) < 2 * Eps + 4 * t}
Grounds(S, A) == Lowest(S, A, -T)          \* certainly ground states
MaybeGrounds(S, A) == Lowest(S, A, T)
Decided(S, A) == Grounds(S, A) = MaybeGrounds(S, A)
Alike(S, c, E2, t) == LET x == Energy2(S, c) - E2 IN x < 2 * Eps + 4 * t /\ -x < 2 * Eps + 4 * t

\* d, a sequence of energies (doubled) and degeneracies, is the spectrum of the configurations in A
Spectrum(S, A, d) ==
  /\ \A k \in 1..(Len(d) - 1) : d[k + 1][1] - d[k][1] > 2 * Eps - 4 * T
  /\ \A c \in Ran(A) : \E k \in 1..Len(d) : Alike(S, c, d[k][1], T)
  /\ \A k \in 1..Len(d) : /\ \E c \in Ran(A) : Within(Energy2(S, c), d[k][1], 4 * T)
                          /\ Cardinality({c \in Ran(A) : Alike(S, c, d[k][1], -T)}) <= d[k][2]
                          /\ d[k][2] <= Cardinality({c \in Ran(A) : Alike(S, c, d[k][1], T)})

\* what it takes to change the charge of a site: from whom to whom, in terms of the distance to the energy levels
Dist(x) == IF x < 0 THEN -x ELSE x
ToLo(S, L, i) == Dist(S.lo - L[i])
ToHi(S, L, i) == Dist(S.hi - L[i])
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Having(c, x) == {i \in 1..Len(c) : c[i] = x}
\* t: for a kind of transition the site and the potential found (v = -1: none)
Cheapest(D, sites, L, t) ==
  IF sites = {} THEN t.v = -1
  ELSE t.c \in sites /\ Within(t.v, D[t.c], T) /\ \A i \in sites : D[t.c] <= D[i] + T
StabilityRight(S, c, t) == \E L \in {Locals(S, c)} : \E lo \in {[i \in 1..S.n |-> ToLo(S, L, i)]} : \E hi \in {[i \in 1..S.n |-> ToHi(S, L, i)]} :
  /\ Cheapest(lo, Having(c, -1), L, t.no) /\ Cheapest(hi, Having(c, 1), L, t.po) /\ Cheapest(hi, Having(c, 0), L, t.op)
  \* neutral sites that are nearer to becoming positive are not considered for becoming negative
  /\ \/ Cheapest(lo, {i \in Having(c, 0) : lo[i] < hi[i] - T}, L, t.on)
     \/ Cheapest(lo, {i \in Having(c, 0) : lo[i] < hi[i] + T}, L, t.on)
=============================================================================
