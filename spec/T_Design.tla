------------------------------ MODULE T_Design ------------------------------
EXTENDS Design, TraceCheck
Dist(a, b) == IF a < b THEN b - a ELSE a - b
DInit(hh) == <<>>
DStep(s, e) == s
OrthoGood(e) ==
  /\ e.thrown = e.wide
  /\ ~e.thrown => \E s \in {FromDoc(e.d)} :
       /\ Bounded(s) /\ AllPlaced(s) /\ LegalFor(s, e.net) /\ IosAtBorder(s)
       /\ s.k.name = "2DDWAVE" /\ s.k.n = e.ph
       /\ Realizes(s, e.net)
       /\ e.named => Named(s, e.names)
       /\ e.st = Stats(s)
\* inverters that do not bend
Straight(s) == \A t \in DOMAIN s.at : N(s, s.at[t]).fn = Fn.inv =>
  \A u \in DOMAIN s.at : t \in {Children(s, u)[q] : q \in 1..Len(Children(s, u))} =>
     \A q \in 1..Len(Children(s, t)) : LET c == Children(s, t)[q] IN (c[1] = u[1]) \/ (c[2] = u[2])
Cost(s, c) == CASE c = 0 -> Size(s)[1] * Size(s)[2]
                [] c = 1 -> Wires(s) - Len(s.pis) - Len(s.pos)
                [] c = 2 -> Crossed(s)
                [] c = 3 -> Size(s)[1] * Size(s)[2] * (1 + Crossed(s))
                [] OTHER -> GateCount(s) + 3 * Wires(s)
GoldGood(e) ==
  /\ e.thrown = e.wide
  /\ ~e.thrown => \E s \in {FromDoc(e.d)} :
       /\ Bounded(s) /\ AllPlaced(s) /\ LegalFor(s, e.net) /\ IosAtBorder(s)
       /\ s.k.name = "2DDWAVE"
       /\ e.planar => \A t \in DOMAIN s.at : t[3] = 0
       /\ e.straight => Straight(s)
       /\ Realizes(s, e.net)
       /\ e.named => Named(s, e.names)
       /\ e.st = Stats(s)
       \* what is returned in the end is not worse than what was found first
       /\ \A q \in 1..Len(e.firstd) : Cost(s, e.cost) <= Cost(FromDoc(e.firstd[q]), e.cost)
\* what a layout has to comply with
Complies(s, e) == /\ Bounded(s) /\ AllPlaced(s) /\ LegalFor(s, e.net)
                  /\ s.k.name = e.scheme
                  /\ e.border => IosAtBorder(s)
                  /\ ~e.crossings => \A t \in DOMAIN s.at : t[3] = 0
                  /\ ~e.desync => Throughput(s) = 1
                  /\ ~e.sync => DOMAIN s.k.se = {}
                  /\ e.straight => Straight(s)
                  /\ Size(s)[1] * Size(s)[2] <= e.bounds[1] /\ Size(s)[1] <= e.bounds[2] /\ Size(s)[2] <= e.bounds[3]
                  /\ Realizes(s, e.net)
ExactGood(e) ==
  /\ e.thrown = e.wide
  /\ ~e.thrown => \E s \in {FromDoc(e.d)} :
       /\ Complies(s, e)
       /\ e.named => Named(s, e.names)
       /\ e.st = Stats(s)
       \* the smallest possible layout: no other layout that complies is smaller
       /\ (~e.timed /\ Unread(e.net) = {}) => \A q \in 1..Len(e.rivals) : \E u \in {FromDoc(e.rivals[q])} : Complies(u, e) => Size(u)[1] * Size(u)[2] >= Size(s)[1] * Size(s)[2]
\* an input that nothing reads cannot be placed by this method
NoExactGood(e) == (~e.timed /\ Unread(e.net) = {}) => \A q \in 1..Len(e.rivals) : ~Complies(FromDoc(e.rivals[q]), e)
\* Optimization leaves everything that is not about places and wires as it is.
Ports(s) == <<[p \in 1..Len(s.pis) |-> PiName(s, p)], [p \in 1..Len(s.pos) |-> PoName(s, p)]>>
Census(s) == LET fs == {N(s, n).fn : n \in {m \in Nodes(s) : ~N(s, m).dead /\ ~IsWire(s, m)}}
             IN [f \in fs |-> Cardinality({n \in Nodes(s) : ~N(s, n).dead /\ N(s, n).fn = f})]
InnerWires(s) == Wires(s) - Len(s.pis) - Len(s.pos)
Surface(s) == Size(s)[1] * Size(s)[2]
\* where gates and inputs are
Spots(s) == {<<t, N(s, s.at[t]).fn>> : t \in {u \in DOMAIN s.at : ~IsWire(s, s.at[u])}} \cup {<<s.pis[p], p>> : p \in 1..Len(s.pis)}
OptGood(e) == \E a \in {FromDoc(e.a)}, s \in {FromDoc(e.d)} :
  /\ Bounded(s) /\ AllPlaced(s) /\ IosAtBorder(s)
  /\ \A q \in Serious \ {"connected"} : Breaches(s, q) = 0
  /\ \A t \in Open(s) : \E p \in 1..Len(s.pis) : s.at[t] = s.pis[p]
  /\ Cardinality(Open(s)) = Cardinality(Open(a))
  /\ s.nm = a.nm /\ s.k.name = a.k.name /\ s.k.n = a.k.n
  /\ Ports(s) = Ports(a) /\ Census(s) = Census(a)
  /\ \E A \in {LayoutOutputs(a)}, B \in {LayoutOutputs(s)} : A = B
  /\ Surface(s) <= Surface(a)
  /\ e.st = <<Size(a)[1], Size(a)[2], InnerWires(a), Size(s)[1], Size(s)[2], InnerWires(s)>>
  /\ e.op = "reduce" => InnerWires(s) <= InnerWires(a)
  /\ e.op = "optimize" => /\ e.xs = <<Crossed(a), Crossed(s)>>
                          /\ e.planar => Crossed(s) <= Crossed(a)
\* Turning a layout by 45 degrees: diagonals become rows.
Along(t) == t[1] - t[2]
TurnGood(e) == /\ e.same
  /\ \E a \in {FromDoc(e.a)}, s \in {FromDoc(e.d)} :
     /\ Bounded(s) /\ AllPlaced(s)
     /\ \A q \in Serious \ {"connected"} : Breaches(s, q) = 0
     /\ \A t \in Open(s) : \E p \in 1..Len(s.pis) : s.at[t] = s.pis[p]
     /\ s.k.name = "ROW" /\ s.k.g.arr = "even_row" /\ s.nm = a.nm
     /\ Ports(s) = Ports(a) /\ Census(s) = Census(a)
     /\ \E A \in {LayoutOutputs(a)}, B \in {LayoutOutputs(s)} : A = B
     /\ e.st = Stats(s)
     /\ (e.ins = 0 /\ e.outs = 0) => Wires(s) = Wires(a) /\ Crossed(s) = Crossed(a)
     /\ (e.ins # 1 /\ e.outs # 1) => Crossed(s) <= Crossed(a)
     /\ e.ins # 0 => /\ \A p \in 1..Len(s.pis) : (0 \in {N(a, a.pis[p]).t[1], N(a, a.pis[p]).t[2]}) => N(s, s.pis[p]).t[2] = 0
                     /\ \A p, q \in 1..Len(s.pis) : Along(N(a, a.pis[p]).t) < Along(N(a, a.pis[q]).t) => N(s, s.pis[p]).t[1] < N(s, s.pis[q]).t[1]
     \* outputs at the far borders (which is where they belong) are moved
     /\ e.outs # 0 => \A p \in 1..Len(s.pos) : (a.pos[p][1] = a.k.g.X \/ a.pos[p][2] = a.k.g.Y) => s.pos[p][2] = s.k.g.Y
DGood(s0, s, e) ==
  CASE e.op = "ortho" -> OrthoGood(e)
    [] e.op = "gold"  -> GoldGood(e)
    [] e.op = "exact" -> ExactGood(e)
    [] e.op = "noexact" -> NoExactGood(e)
    [] e.op \in {"optimize", "reduce"} -> OptGood(e)
    [] e.op = "turn" -> TurnGood(e)
    [] e.op = "noturn" -> e.same
    [] OTHER -> TRUE
=============================================================================
