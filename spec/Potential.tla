------------------------------ MODULE Potential ------------------------------
(***************************************************************************)
(* Converting an electrostatic potential into a distance.  V is the        *)
(* screened Coulomb potential of the parameter set, tabulated on the       *)
(* decimal grid of each precision (units of 100 nV, see                    *)
(* bin/gen_potential_table.py).  V is strictly decreasing, and the         *)
(* conversion returns the least grid distance whose potential does not     *)
(* exceed the requested one.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json
Table == JsonDeserialize("potential_table.json")
Cap == 2000000000

\* grid of precision p for parameter set s (both 0-based in the code's terms)
Grid(s, p) == Table[s + 1].grid[p + 1]

\* relation: n is a correct answer for the request q in grid g
Answer(g, q, n) == /\ n \in 1..Len(g)
                   /\ g[n] <= q
                   /\ n > 1 => g[n-1] > q

\* the search the specification prescribes: walk outwards until the potential has fallen to the request
RECURSIVE Walk(_, _, _)
Walk(g, q, n) == IF g[n] > q THEN Walk(g, q, n + 1) ELSE n
=============================================================================
