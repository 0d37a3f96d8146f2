------------------------------ MODULE Annealing ------------------------------
(***************************************************************************)
(* Simulated annealing (algorithms/optimization/simulated_annealing.hpp).  *)
(* One run is a state machine; the environment supplies the neighbour      *)
(* proposals, their costs and the temperatures the schedule returns.       *)
(*   T     current temperature          n     proposals made at T          *)
(*   cands pairs <<state, cost>> the current state may be: two of them     *)
(*         after a proposal that is accepted only with some probability    *)
(*   best  best <<state, cost>> seen so far                                *)
(* Costs and temperatures are integers in a common unit.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Start(T0, Tf, cycles, s, c) == [T0 |-> T0, Tf |-> Tf, cycles |-> cycles, T |-> T0, n |-> 0,
                                cands |-> {<<s, c>>}, best |-> <<s, c>>]
Running(m) == m.T > m.Tf
CanPropose(m, cur) == Running(m) /\ m.n < m.cycles /\ \E p \in m.cands : p[1] = cur
\* outcome of proposing state s with cost c while standing on cur
Propose(m, cur, s, c) ==
  LET here  == CHOOSE p \in m.cands : p[1] = cur
      delta == c - here[2]
  IN IF c < m.best[2] THEN [m EXCEPT !.n = @ + 1, !.best = <<s, c>>, !.cands = {<<s, c>>}]
     ELSE [m EXCEPT !.n = @ + 1,
                    !.cands = IF delta > 10 * m.T THEN {here}          \* hopeless: never accepted
                              ELSE IF delta <= 0 THEN {<<s, c>>}       \* not worse: always accepted
                              ELSE {here, <<s, c>>}]                   \* with probability exp(-delta/T)
CanCool(m, t) == Running(m) /\ m.n = m.cycles /\ t = m.T
Cool(m, t) == [m EXCEPT !.T = Clamp(t, m.Tf, m.T0), !.n = 0]
CanFinish(m) == ~Running(m)

\* exp(-d/t) in ten-thousandths for the probed ratios d/t (in tenths)
Accept10k == [r \in {1, 5, 10, 20, 30} |-> CASE r = 1 -> 9048 [] r = 5 -> 6065 [] r = 10 -> 3679 [] r = 20 -> 1353 [] r = 30 -> 498]
=============================================================================
