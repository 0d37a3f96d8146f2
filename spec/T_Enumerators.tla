--------------------------- MODULE T_Enumerators ---------------------------
EXTENDS Enumerators, TraceCheck
EInit(hh) == [s \in 0..3 |-> IF hh.k = "aspect" THEN [num |-> 0, done |-> {}, cur |-> <<-1, -1>>] ELSE [start |-> W!Zero(8), pos |-> W!Zero(8)]]
EStep(st0, e) ==
  CASE e.op = "a_new"  -> [st0 EXCEPT ![e.s] = ARFirst(IF e.n = 0 THEN 1 ELSE e.n, e.r)]
    [] e.op = "a_inc"  -> [st0 EXCEPT ![e.s] = ARNext(@, e.r)]
    [] e.op = "a_post" -> [[st0 EXCEPT ![e.d] = st0[e.s]] EXCEPT ![e.s] = ARNext(st0[e.s], e.r)]
    [] e.op = "a_copy" -> [st0 EXCEPT ![e.d] = st0[e.s]]
    [] e.op = "g_new"  -> [st0 EXCEPT ![e.s] = [start |-> e.n, pos |-> e.n]]
    [] e.op \in {"g_inc", "g_dec"} -> [st0 EXCEPT ![e.s] = GAdvance(@, IF e.op = "g_inc" THEN 1 ELSE -1)]
    [] e.op = "g_add"  -> [st0 EXCEPT ![e.s] = GAdvance(@, e.m)]
    [] e.op = "g_set"  -> [st0 EXCEPT ![e.s].pos = e.n]
    [] OTHER -> st0
EGood(a, b, e) ==
  CASE e.op = "a_new"  -> ARLegalStart(b[e.s].num, e.r)
    [] e.op = "a_inc"  -> e.r \in ARNexts(a[e.s])
    [] e.op = "a_post" -> e.r \in ARNexts(a[e.s]) /\ e.old = a[e.s].cur /\ e.old2 = a[e.s].cur
    [] e.op = "a_copy" -> e.r = a[e.s].cur
    [] e.op = "a_get"  -> e.r = a[e.s].cur
    [] e.op = "a_cmp"  -> LET p == a[e.s]  q == a[e.d] IN
           /\ e.eq = AREq(p, q) /\ e.ne = ~AREq(p, q)
           /\ e.lt = ARLt(p, q) /\ e.le = (ARLt(p, q) \/ AREq(p, q))
    [] e.op = "a_cmpn" -> LET n == a[e.s].num IN e.eq = (n = e.m) /\ e.ne = (n # e.m) /\ e.lt = (n < e.m) /\ e.le = (n <= e.m)
    [] e.op \in {"g_new", "g_inc", "g_dec", "g_add", "g_set", "g_get"} -> e.r = Gray(b[e.s].pos)
                                        /\ (e.op \in {"g_inc", "g_dec"} => e.old = Gray(IF e.post THEN a[e.s].pos ELSE b[e.s].pos))
    [] e.op = "g_plus" -> e.r = Gray(GAdvance(a[e.s], e.m).pos)
    [] e.op = "g_at"   -> e.r = Gray(W!Add(a[e.s].start, e.n))
    [] e.op = "g_diff" -> e.r = W!Sub(a[e.s].pos, a[e.d].pos)
    [] e.op = "g_cmp"  -> LET p == a[e.s].pos  q == a[e.d].pos IN
           e.eq = (p = q) /\ e.ne = (p # q) /\ e.lt = W!Less(p, q) /\ e.le = ~W!Less(q, p)
    [] e.op = "g_cmpn" -> LET p == a[e.s].pos  q == e.n IN
           e.eq = (p = q) /\ e.ne = (p # q) /\ e.lt = W!Less(p, q) /\ e.le = ~W!Less(q, p) /\ e.gt = W!Less(q, p) /\ e.ge = ~W!Less(p, q)
=============================================================================
