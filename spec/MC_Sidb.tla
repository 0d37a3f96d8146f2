------------------------------ MODULE MC_Sidb ------------------------------
(* Theorems about the model over every small system. *)
EXTENDS Sidb, TLC
CONSTANTS N, MaxV, MaxE, WithDefect
VARIABLES sys, done
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i < j}
Defs == IF WithDefect THEN {<<[q |-> q, w |-> w, u |-> w, x |-> <<0>>, e |-> 0]>> : q \in {-1, 1}, w \in [1..N -> 0..1]} ELSE {<<>>}
Bare == {[n |-> N, V |-> [i \in 1..N |-> [j \in 1..N |-> 0]], ext |-> [i \in 1..N |-> x[i]], d |-> d, lo |-> lo, hi |-> lo - gap] :
           x \in [1..N -> (-MaxE)..MaxE], d \in Defs, lo \in {-3, -1}, gap \in 1..2}
Init == sys \in Bare /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \E p \in [Pairs -> 0..MaxV] : sys' = [sys EXCEPT !.V = [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE IF i < j THEN p[<<i, j>>] ELSE p[<<j, i>>]]]]
\* Twice the grand potential: the energy of the electrons exchanged with the bulk included.
Grand2(S, c) == Energy2(S, c) + Total([i \in 1..S.n |-> 2 * (IF c[i] = -1 THEN S.lo ELSE IF c[i] = 1 THEN -S.hi ELSE 0)])
Sym(S) == \A k \in 1..Len(S.d) : S.d[k].w = S.d[k].u
\* The configuration of lowest grand potential is physically valid, so that simulations never come back empty-handed.
GroundIsValid == \A c \in Configs(sys, 3) : (\A c2 \in Configs(sys, 3) : Grand2(sys, c) <= Grand2(sys, c2)) => Valid(sys, c, 0)
\* Stability is what the energies say.
HopIsEnergy == \A c \in Configs(sys, 3) : \A i, j \in 1..N : (c[i] < c[j] /\ Sym(sys)) =>
   2 * HopGain(sys, Locals(sys, c), i, j) = Energy2(sys, [c EXCEPT ![i] = @ + 1, ![j] = @ - 1]) - Energy2(sys, c)
StepIsEnergy == \A c \in Configs(sys, 3) : \A i \in 1..N : (c[i] = -1 /\ Sym(sys)) =>
   2 * (Local(sys, c, i)) = Energy2(sys, [c EXCEPT ![i] = 0]) - Energy2(sys, c)
\* What engines rely upon when they leave configurations out.
NegativeStay == \A c \in {c2 \in Configs(sys, 3) : Valid(sys, c2, 0)} : \A i \in SurelyNegative(sys, 0) : c[i] = -1
PositiveOnly == \A c \in {c2 \in Configs(sys, 3) : Valid(sys, c2, 0)} : \A i \in 1..N : c[i] = 1 => i \in MayBePositive(sys, 0)
TwoStates == MayBePositive(sys, 0) = {} => {c \in Configs(sys, 3) : Valid(sys, c, 0)} = {c \in Configs(sys, 2) : Valid(sys, c, 0)}
\* Treating a site that is surely negative as a defect of charge -1 does not change which configurations of the others are valid.
Without(S, i) == LET at == [k \in 1..(N - 1) |-> IF k < i THEN k ELSE k + 1] IN
   [n |-> N - 1, V |-> [a \in 1..(N - 1) |-> [b \in 1..(N - 1) |-> S.V[at[a]][at[b]]]], ext |-> [a \in 1..(N - 1) |-> S.ext[at[a]]],
    d |-> Append([k \in 1..Len(S.d) |-> [S.d[k] EXCEPT !.w = [a \in 1..(N - 1) |-> S.d[k].w[at[a]]], !.u = [a \in 1..(N - 1) |-> S.d[k].u[at[a]]], !.x = Append(S.d[k].x, S.d[k].w[i])]],
                 [q |-> -1, w |-> [a \in 1..(N - 1) |-> S.V[at[a]][i]], u |-> [a \in 1..(N - 1) |-> S.V[at[a]][i]], x |-> Append([k \in 1..Len(S.d) |-> S.d[k].w[i]], 0), e |-> S.ext[i]]),
    lo |-> S.lo, hi |-> S.hi]
Drop(c, i) == [k \in 1..(N - 1) |-> IF k < i THEN c[k] ELSE c[k + 1]]
AsDefect == \A i \in SurelyNegative(sys, 0) : \E R \in {Without(sys, i)} :
   /\ \A c \in Configs(sys, 3) : c[i] = -1 => (Populated(R, Drop(c, i), Locals(R, Drop(c, i)), 0) <=> \A k \in (1..N) \ {i} :
         LET L == Local(sys, c, k) IN CASE c[k] = -1 -> sys.lo - L < Eps [] c[k] = 1 -> sys.hi - L > -Eps [] OTHER -> sys.lo - L > -Eps /\ sys.hi - L < Eps)
   /\ \A c \in Configs(sys, 3) : c[i] = -1 /\ Sym(sys) => Energy2(R, Drop(c, i)) = Energy2(sys, c)
   /\ \A c \in Configs(sys, 3) : c[i] = -1 => (Valid(sys, c, 0) <=> Valid(R, Drop(c, i), 0))
IndexBijective == \A b \in {2, 3} : \A dep \in 0..N :
   /\ \A c \in Configs(sys, b) : Index(c, b, dep) \in 0..MaxIndex(N, b, dep) /\ FromIndex(N, Index(c, b, dep), b, dep, IF dep = 0 THEN 0 ELSE c[dep]) = c
   /\ \A ix \in 0..MaxIndex(N, b, dep) : Index(FromIndex(N, ix, b, dep, 0), b, dep) = ix
=============================================================================
