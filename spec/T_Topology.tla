----------------------------- MODULE T_Topology -----------------------------
EXTENDS Topology, TraceCheck
Rng(q) == {q[n] : n \in 1..Len(q)}
NoDup(q) == Cardinality(Rng(q)) = Len(q)
LInit(hh) == [arr |-> hh.init.arr, X |-> hh.init.X, Y |-> hh.init.Y, Z |-> hh.init.Z]
LStep(g, e) == IF e.op = "resize" THEN [g EXCEPT !.X = e.X, !.Y = e.Y, !.Z = e.Z] ELSE g
ByRow(q) == \A p \in 1..(Len(q)-1) : q[p][2] < q[p+1][2] \/ (q[p][2] = q[p+1][2] /\ q[p] # q[p+1])
LGood(g0, g, e) ==
  CASE e.op \in {"dims", "resize"} -> <<e.x, e.y, e.z>> = <<g.X, g.Y, g.Z>> /\ e.area = Area(g, e.siqad)
    [] e.op = "tile" ->
         /\ \A d \in {"n","ne","e","se","s","sw","w","nw","u","d"} : e[d] = Go(g, e.c, d)
         /\ NoDup(e.adj) /\ Rng(e.adj) = Adjacent(g, e.c)
         /\ NoDup(e.adjf) /\ Rng(e.adjf) = Adjacent(g, e.c)
         /\ NoDup([k \in 1..Len(e.opp) |-> Rng(e.opp[k])]) /\ {Rng(e.opp[k]) : k \in 1..Len(e.opp)} = OppositePairs(g, e.c)
         /\ e.border = <<North(g, e.c), East(g, e.c), South(g, e.c), West(g, e.c)>>
         /\ e.any = (North(g, e.c) \/ East(g, e.c) \/ South(g, e.c) \/ West(g, e.c))
         /\ e.bn = <<e.c[1], 0, e.c[3]>> /\ e.be = <<g.X, e.c[2], e.c[3]>>
         /\ e.bs = <<e.c[1], g.Y, e.c[3]>> /\ e.bw = <<0, e.c[2], e.c[3]>>
         /\ e.ground = (e.c[3] = 0) /\ e.crossing = (e.c[3] > 0)
    [] e.op = "bounds" -> e.r = Inside(g, e.c)
    [] e.op = "rel" ->
         LET a == e.a  b == e.b IN
         /\ e.n = (a # b /\ Go(g, a, "n") = b) /\ e.e = (a # b /\ Go(g, a, "e") = b)
         /\ e.s = (a # b /\ Go(g, a, "s") = b) /\ e.w = (a # b /\ Go(g, a, "w") = b)
         /\ e.u = (a # b /\ Go(g, a, "u") = b) /\ e.d = (a # b /\ Go(g, a, "d") = b)
         /\ e.nn = (a[3] = b[3] /\ a[1] = b[1] /\ b[2] < a[2]) /\ e.ss = (a[3] = b[3] /\ a[1] = b[1] /\ b[2] > a[2])
         /\ e.ee = (a[3] = b[3] /\ a[2] = b[2] /\ b[1] > a[1]) /\ e.ww = (a[3] = b[3] /\ a[2] = b[2] /\ b[1] < a[1])
         /\ e.adj = (b \in Adjacent(g, a)) /\ e.adje = AdjElevation(g, a, b)
    [] e.op = "iter" ->
         LET gg == IF e.ground THEN Ground(g) ELSE g
             full == Seq3(gg)
             k1 == IF e.from = <<>> THEN 1 ELSE CHOOSE k \in 1..Len(full) : full[k] = e.from
             k2 == IF e.to = <<>> THEN Len(full) + 1 ELSE CHOOSE k \in 1..Len(full) : full[k] = e.to
         IN IF e.any = TRUE THEN NoDup(e.q) /\ Rng(e.q) = Rng(full)     \* order not prescribed for this coordinate type
            ELSE e.q = SubSeq(full, k1, k2 - 1)
    [] e.op = "stop" -> e.n = (IF e.after <= Volume(g) THEN e.after ELSE Volume(g))
    [] e.op = "parity" -> e.r = <<e.c[2] % 2 = 1, e.c[2] % 2 = 0, e.c[1] % 2 = 1, e.c[1] % 2 = 0>>
    [] e.op = "cube" -> \* cube coordinates: zero sum, the round trip is exact, and neighbours differ by a unit step
         /\ e.q[1] + e.q[2] + e.q[3] = 0 /\ e.back = <<e.c[1], e.c[2]>>
         /\ \A k \in 1..Len(e.nb) : LET m(p) == IF e.nb[k][p] - e.q[p] < 0 THEN e.q[p] - e.nb[k][p] ELSE e.nb[k][p] - e.q[p]
                                    IN m(1) + m(2) + m(3) = 2
=============================================================================
