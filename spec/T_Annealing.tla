---------------------------- MODULE T_Annealing ----------------------------
EXTENDS Annealing, TraceCheck
AInit(hh) == IF hh.k = "run" THEN Start(hh.init.T0, hh.init.Tf, hh.init.cycles, hh.init.s, hh.init.c) ELSE [k |-> "other"]
AStep(m, e) == CASE e.op = "next"  -> IF CanPropose(m, e.cur) THEN Propose(m, e.cur, e.new, e.c) ELSE m
                 [] e.op = "sched" -> Cool(m, e.r)
                 [] OTHER -> m
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
SetOf(q) == {q[n] : n \in 1..Len(q)}
AGood(m, m2, e) ==
  CASE e.op = "next"   -> CanPropose(m, e.cur)
    [] e.op = "sched"  -> CanCool(m, e.t)
    [] e.op = "result" -> CanFinish(m) /\ <<e.s, e.c>> = m.best
    [] e.op = "end"    -> CanFinish(m)
    [] e.op = "multi"  -> /\ e.started = e.instances
                          /\ e.c = Min(SetOf(e.costs)) /\ e.c = e.cost_of_s
    [] e.op = "accept" -> LET d == e.acc * 10000 - e.n * Accept10k[e.ratio] IN d \in (-(10000 * 500))..(10000 * 500)  \* 7 standard deviations
    [] e.op = "linear" -> e.r = e.t - 10000
    [] e.op = "geometric" -> e.r * 100 - e.t * 99 \in (-100)..100
=============================================================================
