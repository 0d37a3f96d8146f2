--------------------------- MODULE MC_PathFinding ---------------------------
(***************************************************************************)
(* Best-first search as a state machine on a small grid with any set of    *)
(* obstructed tiles, any weights-by-tile flag and any tie-breaking, to     *)
(* justify what is demanded of the implementation: with a heuristic that   *)
(* never overestimates, the first path that reaches the target is a        *)
(* cheapest one, and no path is found only if there is none.  Removing all *)
(* deviations of known paths finds the next shortest one (Yen).            *)
(***************************************************************************)
EXTENDS PathFinding
CONSTANTS Arr, MX, MY
VARIABLES E, w, src, tgt, open, closed, g, from, res
vars == <<E, w, src, tgt, open, closed, g, from, res>>
G == [arr |-> Arr, X |-> MX, Y |-> MY, Z |-> 0]
Env(oc) == [s |-> GNew(NewStore(G, FALSE, "OPEN", 4), ""), clocked |-> FALSE, obst |-> TRUE, oc |-> oc, on |-> {}, cross |-> FALSE]
H(c) == IF Arr = "cart" THEN Manhattan(c, tgt) ELSE Chebyshev(c, tgt)
Init == /\ \E oc \in SUBSET Coords(G) : E = Env(oc)
        /\ w \in BOOLEAN /\ src = <<0, 0, 0>> /\ tgt \in Coords(G)
        /\ open = {src} /\ closed = {} /\ g = (src :> 0) /\ from = <<>> /\ res = "run"
F(c) == g[c] + H(c)
Best(c) == c \in open /\ \A d \in open : F(c) <= F(d)
Expand(c) ==
  LET nw == {b \in Steps(E, c, tgt, TRUE) \ closed : b \notin open \/ g[c] + Weight(w, c, b) < g[b]} IN
  /\ open' = (open \ {c}) \cup nw /\ closed' = closed \cup {c}
  /\ g' = [b \in nw |-> g[c] + Weight(w, c, b)] @@ g
  /\ from' = [b \in nw |-> c] @@ from
  /\ UNCHANGED res
Next == /\ res = "run" /\ UNCHANGED <<E, w, src, tgt>>
        /\ IF open = {} THEN res' = "none" /\ UNCHANGED <<open, closed, g, from>>
           ELSE \E c \in open : Best(c) /\ IF c = tgt THEN res' = "found" /\ UNCHANGED <<open, closed, g, from>> ELSE Expand(c)
Back == LET RECURSIVE b(_) b(c) == IF c = src THEN <<c>> ELSE Append(b(from[c]), c) IN b(tgt)
Optimal == /\ res = "none"  => MinCost(E, w, src, tgt, TRUE) = -1
           /\ res = "found" => IsPath(E, Back, src, tgt, TRUE) /\ LoopFree(Back) /\ Cost(w, Back) = MinCost(E, w, src, tgt, TRUE)
\* the heuristics never overestimate
Admissible == \A c \in Coords(G) : LET m == MinCost(E, FALSE, c, tgt, TRUE) IN m = -1 \/ H(c) <= m
\* the cheapest cost is that of the cheapest of all loop-free paths
Consistent == res # "run" => LET A == AllPaths(E, src, tgt, TRUE)  m == MinCost(E, w, src, tgt, TRUE) IN
  /\ (m = -1) = (A = {})
  /\ \A p \in A : IsPath(E, p, src, tgt, TRUE) /\ LoopFree(p) /\ Cost(w, p) >= m
  /\ A # {} => \E p \in A : Cost(w, p) = m
AtStart == open = {src} => Admissible /\ Consistent
=============================================================================
