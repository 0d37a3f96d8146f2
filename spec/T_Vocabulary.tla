---------------------------- MODULE T_Vocabulary ----------------------------
EXTENDS Vocabulary, TraceCheck
VInit(hh) == IF hh.k = "ports" THEN [i |-> {}, o |-> {}] ELSE [i |-> {}, o |-> {}]
RangeOf(s) == {s[p] : p \in 1..Len(s)}
VStep(s, e) == CASE e.op = "pl_new" -> [i |-> RangeOf(e.i), o |-> RangeOf(e.o)]
                 [] e.op = "pl_add" -> [i |-> s.i \cup RangeOf(e.i), o |-> s.o \cup RangeOf(e.o)]
                 [] OTHER -> s
Sorted(q, t) == \A p \in 1..(Len(q)-1) : IF t = "pos" THEN PosLt(q[p], q[p+1]) ELSE q[p] < q[p+1]
VGood(s, t, e) ==
  CASE e.op = "cell" -> RangeOf(e.classes) = CellClasses(e.tech, e.type)
    [] e.op = "mode" -> RangeOf(e.classes) = ModeClasses(e.tech, e.mode)
    [] e.op = "molclock" -> e.r = MolClock(e.type)
    [] e.op = "poscmp" -> e.eq = (e.a = e.b) /\ e.lt = PosLt(e.a, e.b) /\ ((e.a = e.b) => e.heq)
    [] e.op = "dircmp" -> e.eq = (e.a = e.b) /\ e.lt = (e.a < e.b) /\ ((e.a = e.b) => e.heq)
    [] e.op = "posfmt" -> e.r = "(" \o ToString(e.a[1]) \o "," \o ToString(e.a[2]) \o ")"
    [] e.op = "dirfmt" -> e.r = DirName[e.a + 1]
    [] e.op \in {"pl_new", "pl_add"} -> /\ RangeOf(e.ri) = t.i /\ RangeOf(e.ro) = t.o
                                        /\ Sorted(e.ri, e.t) /\ Sorted(e.ro, e.t)
    [] e.op = "pl_eq" -> /\ e.r = (t.i = RangeOf(e.i) /\ t.o = RangeOf(e.o)) /\ (e.r => e.heq)
    [] e.op = "gate" -> e.tt = GateTT(e.name)
    [] e.op = "decay" -> e.tt \in Decays(GateTT(e.of), e.vars)
    [] e.op = "sign" -> e.r = SignToState(e.x)
    [] e.op = "state" -> e.r = StateToSign(e.x)
    [] e.op = "chargestr" -> e.r = ChargeStr(e.x)
    [] e.op = "base" -> e.r = StatesFor(e.b)
    [] e.op = "defect" -> /\ e.charged = ChargedDefect(e.t, e.q) /\ e.neutral = NeutralDefect(e.t, e.q)
                          /\ e.pos = (e.q > 0) /\ e.neg = (e.q < 0) /\ e.zero = (e.q = 0)
                          /\ e.ext = Extent(e.t, e.q, e.cow, e.now)
    [] e.op = "defcmp" -> e.eq = (e.a = e.b) /\ (e.eq => e.heq)
    [] e.op = "params" -> /\ e.mup = e.mum - 590        \* thousandths of an eV
                          /\ e.base = e.b /\ e.eps = e.eps_in /\ e.lam = e.lam_in /\ e.mum = e.mu_in
                          /\ e.keps \in (e.ke - 2)..(e.ke + 2)   \* k * epsilon_r is Coulomb's constant
=============================================================================
