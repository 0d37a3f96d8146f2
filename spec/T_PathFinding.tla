--------------------------- MODULE T_PathFinding ---------------------------
(* queries against layouts whose documents open the histories *)
EXTENDS PathFinding, TraceCheck
Ran(q) == {q[n] : n \in 1..Len(q)}
PFInit(hh) == LET q == hh.init IN
  [s |-> FromDoc(q.doc), clocked |-> q.clocked, obst |-> q.obst, oc |-> Ran(q.oc), on |-> Ran(q.on), cross |-> FALSE]
PFStep(m, e) == CASE e.op = "oc" -> [m EXCEPT !.oc = Ran(e.oc), !.on = Ran(e.on)] [] OTHER -> m
Sorted(q) == \A k \in 1..(Len(q)-1) : q[k] <= q[k+1]
NoDup(q) == Cardinality(Ran(q)) = Len(q)
Upper(E, e) == [E EXCEPT !.cross = e.x]
CountLen(S, n) == Cardinality({p \in S : Len(p) = n})
Root(q, d) == (q - 2 <= 0 \/ (q-2) * (q-2) <= d * 10000) /\ d * 10000 <= (q+2) * (q+2)
PFGood(m0, m, e) ==
  CASE e.op = "astar" ->
         LET E == Upper(m, e)  c == MinCost(E, e.w, e.s, e.t, TRUE) IN
         IF c = -1 THEN e.p = <<>>
         ELSE IsPath(E, e.p, e.s, e.t, TRUE) /\ LoopFree(e.p) /\ Cost(e.w, e.p) = c /\ e.src = e.s /\ e.tgt = e.t
    [] e.op = "dist" ->
         LET c == MinCost(m, FALSE, e.s, e.t, TRUE) IN e.inf = (c = -1) /\ e.finf = (c = -1) /\ (c # -1 => e.v = c /\ e.fv = c)
    [] e.op = "all" ->
         LET E == Upper(m, e)  A == AllPaths(E, e.s, e.t, FALSE) IN NoDup(e.p) /\ Ran(e.p) = A
    [] e.op = "yen" ->
         \* the algorithm works on a layout with obstructions in any case: tiles in use are obstructed
         LET E == [Upper(m, e) EXCEPT !.obst = TRUE]  A == AllPaths(E, e.s, e.t, TRUE)
             lens == [k \in 1..Len(e.p) |-> Len(e.p[k])]
         IN /\ NoDup(e.p) /\ Ran(e.p) \subseteq A /\ Sorted(lens)
            /\ Len(e.p) = (IF e.k < Cardinality(A) THEN e.k ELSE Cardinality(A))
            \* no path that is left out is shorter than one that is listed
            /\ Len(e.p) > 0 => \A p \in A : p \in Ran(e.p) \/ Len(p) >= lens[Len(lens)]
    [] e.op = "metric" ->
         /\ e.man = Manhattan(e.a, e.b) /\ e.che = Chebyshev(e.a, e.b) /\ e.wav = Wave(e.a, e.b)
         /\ e.sq = Squared(e.a, e.b) /\ Root(e.euc, Squared(e.a, e.b))
    [] e.op = "map" ->
         \A k \in 1..Len(e.q) : LET q == e.q[k]
             d == IF e.f = "man" THEN Manhattan(q[1], q[2]) ELSE IF e.f = "wave" THEN Wave(q[1], q[2]) ELSE MinCost(m, FALSE, q[1], q[2], TRUE)
           IN q[3] = d /\ q[4] = d /\ q[5] = d /\ q[6] = d
    [] e.op \in {"oc", "obs"} -> \A p \in 1..Len(e.bl) : e.bl[p] = Blocked(m, Seq3(m.s.k.g)[p])
    [] e.op = "obscon" -> e.v = BlockedStep(m, e.a, e.b)
    [] OTHER -> FALSE
=============================================================================
