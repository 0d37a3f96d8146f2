----------------------------- MODULE T_Clocking -----------------------------
EXTENDS Clocking, TraceCheck
Rng(q) == {q[n] : n \in 1..Len(q)}
NoDup(q) == Cardinality(Rng(q)) = Len(q)
Empty == [ref |-> <<>>, stores |-> <<>>]
KInit(hh) == Empty
G(e) == [arr |-> e.arr, X |-> e.X, Y |-> e.Y, Z |-> e.Z]
KStep(m, e) ==
  CASE e.op = "new"     -> HNew(m, NewStore(G(e), e.hex, e.name, e.n))
    [] e.op = "copy"    -> HCopy(m, e.h)
    [] e.op = "clone"   -> HClone(m, e.h)
    [] e.op = "assign"  -> HUpd(m, e.h, Assign(HGet(m, e.h), e.c, e.k))
    [] e.op = "replace" -> HUpd(m, e.h, Replace(HGet(m, e.h), e.name, e.n))
    [] e.op = "resize"  -> HUpd(m, e.h, Resize(HGet(m, e.h), e.X, e.Y, e.Z))
    [] e.op = "se"      -> HUpd(m, e.h, SetSe(HGet(m, e.h), e.c, e.k))
    [] OTHER -> m
Seen(s, o) == /\ <<o.X, o.Y, o.Z>> = <<s.g.X, s.g.Y, s.g.Z>>
              /\ o.name = <<s.name>> /\ o.n = s.n /\ o.reg = s.reg
              /\ o.clk = [k \in 1..Volume(s.g) |-> Clk(s, Seq3(s.g)[k])]
              /\ o.se = [k \in 1..Len(o.se) |-> Se(s, Seq3(s.g)[k])] /\ (o.se # <<>> => o.nse = Cardinality(DOMAIN s.se))
Zone(s, z) == LET zi == InZones(s, z.c)  zo == OutZones(s, z.c) IN
  /\ NoDup(z.inc) /\ Rng(z.inc) = zi /\ NoDup(z.out) /\ Rng(z.out) = zo
  /\ z.id = Cardinality(zi) /\ z.od = Cardinality(zo) /\ (z.plain => z.dg = Cardinality(zi) + Cardinality(zo))
  /\ z.rel = [k \in 1..Len(z.probe) |-> <<Incoming(s, z.c, z.probe[k]), Outgoing(s, z.c, z.probe[k])>>]
KGood(m0, m, e) ==
  CASE e.op = "scheme" -> \* lookup by name
         IF e.known THEN /\ e.found /\ e.name = NameOn(e.base, e.hex) /\ e.n = e.phases /\ e.reg = (e.base # "OPEN")
                         /\ e.maxin = MaxIn(e.base, e.f) /\ e.maxout = MaxOut(e.base, e.f) /\ e.linear = (e.base \in Linear)
                         /\ e.clk = [k \in 1..Len(e.at) |-> Number(NameOn(e.base, e.hex), e.phases, e.arr, e.at[k][1], e.at[k][2])]
         ELSE ~e.found
    [] OTHER -> /\ Len(e.obs) = Len(m.ref)
                /\ \A p \in 1..Len(m.ref) : Seen(HGet(m, p), e.obs[p])
                /\ \A k \in 1..Len(e.zones) : Zone(HGet(m, e.zones[k].h), e.zones[k])
=============================================================================
