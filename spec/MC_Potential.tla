---------------------------- MODULE MC_Potential ----------------------------
(* The walk as a state machine over the tabulated potentials: it stops, and exactly at the unique correct answer;  *)
(* the answer shrinks (weakly) when the requested potential grows.                                                *)
EXTENDS Potential
CONSTANT Step
VARIABLES s, p, q, n, done
vars == <<s, p, q, n, done>>
Ts == Table
Init == /\ s \in 0..Len(Table)-1 /\ p \in 0..3
        /\ q \in {Grid(s, p)[k] : k \in {j \in 1..Len(Grid(s, p)) : j % Step = 1 /\ Grid(s, p)[j] < Cap}}
        /\ n = 1 /\ done = FALSE
Next == /\ ~done
        /\ IF Grid(s, p)[n] > q THEN n' = n + 1 /\ done' = FALSE ELSE n' = n /\ done' = TRUE
        /\ UNCHANGED <<s, p, q>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == done => Answer(Grid(s, p), q, n)
InGrid == n <= Len(Grid(s, p))
Stops == <>done
=============================================================================
