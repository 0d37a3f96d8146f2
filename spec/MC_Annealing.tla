---------------------------- MODULE MC_Annealing ----------------------------
(* All runs over a small landscape: every proposal, every acceptance.        *)
EXTENDS Annealing
CONSTANTS States, MaxTemp, Cycles
Cost == [s \in States |-> ((s * 5) % 7) - 2]
VARIABLES m, visited
Init == /\ \E t0 \in 0..MaxTemp, s \in States : m = Start(t0, 0, Cycles, s, Cost[s]) /\ visited = {s}
Prop == \E p \in m.cands : \E s \in States :
           CanPropose(m, p[1]) /\ m' = Propose(m, p[1], s, Cost[s]) /\ visited' = visited \cup {s}
Chill == \E t \in (-1)..(m.T - 1) : CanCool(m, m.T) /\ m' = Cool(m, t) /\ UNCHANGED visited
Next == Prop \/ Chill
Spec == Init /\ [][Next]_<<m, visited>> /\ WF_<<m, visited>>(Next)
BestIsBest == \A s \in visited : m.best[2] <= Cost[s]
BestConsistent == m.best[1] \in visited /\ m.best[2] = Cost[m.best[1]]
CandsVisited == \A p \in m.cands : p[1] \in visited /\ p[2] = Cost[p[1]]
TempRange == m.T \in 0..m.T0
Terminates == <>CanFinish(m)
NeverWorse == [][m'.best[2] <= m.best[2]]_<<m, visited>>
=============================================================================
