---------------------------- MODULE T_GateLayout ----------------------------
EXTENDS GateLayout, TraceCheck
Ran(q) == {q[n] : n \in 1..Len(q)}
NoDup(q) == Cardinality(Ran(q)) = Len(q)
GLInit(hh) == [ref |-> <<>>, stores |-> <<>>]
FnOf(e) == IF e.fn = "custom" THEN e.f ELSE Fn[e.fn]
OnClk(s, k) == [s EXCEPT !.k = k]
GLStep(m, e) ==
  LET s == HGet(m, e.h) IN
  CASE e.op = "new"     -> HNew(m, GNew(NewStore([arr |-> e.arr, X |-> e.X, Y |-> e.Y, Z |-> e.Z], e.hex, e.name, e.n), e.nm))
    [] e.op = "copy"    -> HCopy(m, e.h)
    [] e.op = "clone"   -> HClone(m, e.h)
    [] e.op = "pi"      -> HUpd(m, e.h, CreatePi(s, e.nm, e.t))
    [] e.op = "po"      -> HUpd(m, e.h, CreatePo(s, e.c, e.nm, e.t))
    [] e.op = "create"  -> HUpd(m, e.h, Create(s, FnOf(e), e.ch, e.t))
    [] e.op = "move"    -> HUpd(m, e.h, Move(s, e.n, e.t, e.ch))
    [] e.op = "clear"   -> HUpd(m, e.h, Clear(s, e.t))
    [] e.op = "connect" -> HUpd(m, e.h, Connect(s, e.c, e.n))
    [] e.op = "lname"   -> HUpd(m, e.h, [s EXCEPT !.nm = e.nm])
    [] e.op = "name"    -> HUpd(m, e.h, SetName(s, e.n, e.nm))
    [] e.op = "iname"   -> IF e.ix < Len(s.pis) THEN HUpd(m, e.h, SetName(s, s.pis[e.ix + 1], e.nm)) ELSE m
    [] e.op = "oname"   -> IF e.ix < Len(s.pos) THEN HUpd(m, e.h, SetName(s, NodeAt(s, s.pos[e.ix + 1]), e.nm)) ELSE m
    [] e.op = "val"     -> HUpd(m, e.h, SetVal(s, e.n, e.v))
    [] e.op = "vis"     -> HUpd(m, e.h, SetVis(s, e.n, e.v))
    [] e.op = "clearval" -> HUpd(m, e.h, [s EXCEPT !.nd = [p \in 1..Len(s.nd) |-> [s.nd[p] EXCEPT !.val = 0]]])
    [] e.op = "clearvis" -> HUpd(m, e.h, [s EXCEPT !.nd = [p \in 1..Len(s.nd) |-> [s.nd[p] EXCEPT !.vis = 0]]])
    [] e.op = "clk"     -> HUpd(m, e.h, OnClk(s, Assign(Assign(s.k, <<e.t[1], e.t[2], 0>>, e.c), <<e.t[1], e.t[2], 1>>, e.c)))
    [] e.op = "scheme"  -> HUpd(m, e.h, OnClk(s, Replace(s.k, e.name, e.n)))
    [] e.op = "resize"  -> HUpd(m, e.h, OnClk(s, Resize(s.k, e.X, e.Y, e.Z)))
    [] OTHER -> m
Mark(b, v) == IF b THEN v ELSE 0
Flags(s, t) == LET n == NodeAt(s, t) IN
   Mark(n = 0, 1) + Mark(n # 0 /\ ~IsPi(s, n), 2) + Mark(IsWire(s, n), 4) + Mark(IsPi(s, n), 8) + Mark(IsPo(s, n), 16)
Basic(s, o) ==
  LET g == s.k.g IN
  /\ <<o.X, o.Y, o.Z>> = <<g.X, g.Y, g.Z>> /\ o.nm = s.nm
  /\ o.size = Top(s) + 1 /\ o.npi = Len(s.pis) /\ o.npo = Len(s.pos)
  /\ o.ng = NumGates(s) /\ o.nw = NumWires(s) /\ o.nc = NumCrossings(s) /\ o.empty = (DOMAIN s.at = {})
  /\ o.at = [p \in 1..Volume(g) |-> NodeAt(s, Seq3(g)[p])]
  /\ o.fl = [p \in 1..Volume(g) |-> Flags(s, Seq3(g)[p])]
  /\ o.pis = s.pis /\ o.pos = s.pos
  /\ o.inm = [p \in 1..Len(s.pis) |-> N(s, s.pis[p]).nm]
  /\ o.onm = [p \in 1..Len(s.pos) |-> N(s, NodeAt(s, s.pos[p])).nm]
  /\ Len(o.nd) = Len(s.nd)
  /\ \A p \in 1..Len(s.nd) : LET a == o.nd[p]  b == s.nd[p] IN
        /\ a.t = b.t /\ a.d = b.dead /\ a.f = b.fn /\ a.nm = b.nm /\ a.v = b.val /\ a.vis = b.vis
        /\ a.pi = IsPi(s, p + 1) /\ a.po = IsPo(s, p + 1) /\ a.gt = ~IsPi(s, p + 1)
  /\ LET alive == SelectSeq([p \in 1..Len(s.nd) |-> p + 1], LAMBDA n : ~N(s, n).dead) IN
        /\ o.alive = <<0, 1>> \o alive
        /\ o.gates = SelectSeq(alive, LAMBDA n : ~IsPi(s, n))
        /\ o.wires = SelectSeq(alive, LAMBDA n : IsWire(s, n))
Flow(s, clk, n, f) ==
  LET fi == Fanins(s, clk, n)  fo == Fanouts(s, clk, n) IN
  /\ f.fi = fi /\ f.fis = Len(fi) /\ NoDup(f.fo) /\ Ran(f.fo) = fo /\ f.fos = Cardinality(fo)
  /\ Placed(s, n) => f.in = fi /\ NoDup(f.out) /\ Ran(f.out) = {N(s, q).t : q \in fo}
DirOk(s, clk, t, d) ==
  /\ Ran(d.i) = InDirs(s, clk, t) /\ Ran(d.o) = OutDirs(s, clk, t)
  /\ d.noi = (Len(Fanins(s, clk, s.at[t])) = 0) /\ d.noo = (Fanouts(s, clk, s.at[t]) = {})
  /\ d.opp = Opposite(s, clk, t)
Detail(s, dt) == \A p \in 1..Len(dt.ns) :
  LET e == dt.ns[p]  n == e.n IN
  /\ Ran(e.k) = {q \in Kinds : N(s, n).fn = Fn[q]}
  /\ Placed(s, n) => Flow(s, TRUE, n, e.c) /\ Flow(s, FALSE, n, e.u)   \* the flow through a node off the grid is not defined
  /\ Placed(s, n) => e.fan = (IsWire(s, n) /\ Cardinality(Fanouts(s, TRUE, n)) > 1)
  /\ e.placed = Placed(s, n)
  /\ e.placed => DirOk(s, TRUE, N(s, n).t, e.dc) /\ DirOk(s, FALSE, N(s, n).t, e.du)
  /\ \A q \in 1..Len(e.ev) : e.ev[q].v = Eval(s, n, e.ev[q].in) /\ e.ev[q].b = e.ev[q].v
GLGood(m0, m, e) ==
  /\ Len(e.obs) = Len(m.ref)
  /\ e.op \in {"pi", "po", "create", "move"} => e.ret = e.t
  /\ \A p \in 1..Len(m.ref) : Basic(HGet(m, p), e.obs[p])
  /\ \A p \in 1..Len(e.det) : Detail(HGet(m, e.det[p].h), e.det[p])
=============================================================================
