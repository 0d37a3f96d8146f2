------------------------------- MODULE T_Coord -------------------------------
(* Trace specification: coordinates recorded from the implementation.        *)
(* Events carry coordinates as <<x, y, z, d>>.                               *)
EXTENDS Coord, TraceCheck
C(v) == [x |-> v[1], y |-> v[2], z |-> v[3], d |-> (v[4] = 1)]

\* "iter" histories: the abstract state is the iterator position
CInit(hh) == IF hh.k = "iter"
             THEN LET n == hh.init IN [k |-> "iter", t |-> n.t, ar |-> C(n.ar), cur |-> IterStart(n.t, C(n.ar), C(n.start))]
             ELSE [k |-> "pure"]
CStep(s, e) == IF s.k = "iter" /\ e.op = "next" THEN [s EXCEPT !.cur = IterNext(s.t, s.ar, s.cur)] ELSE s

RECURSIVE SortedFrom(_, _, _)
SortedFrom(t, q, n) == n >= Len(q) \/ (LtC(t, C(q[n]), C(q[n+1])) /\ SortedFrom(t, q, n+1))

CGood(s, s2, e) ==
  CASE e.op \in {"begin", "next"} -> C(e.c) = s2.cur /\ e.ended = s2.cur.d
    [] e.op = "cmp" -> LET a == C(e.a)  b == C(e.b) IN
          /\ e.eq = EqC(a, b) /\ e.ne = ~EqC(a, b)
          /\ e.lt = LtC(e.t, a, b) /\ e.gt = LtC(e.t, b, a)
          /\ e.le = ~LtC(e.t, b, a) /\ e.ge = ~LtC(e.t, a, b)
          /\ (EqC(a, b) => e.heq)
    [] e.op = "sort" -> /\ {C(e.sorted[n]) : n \in 1..Len(e.sorted)} = {C(e.inp[n]) : n \in 1..Len(e.inp)}
                        /\ SortedFrom(e.t, e.sorted, 1)
    [] e.op = "set"  -> e.size = Cardinality({C(e.inp[n]) : n \in 1..Len(e.inp)}) /\ e.found
    [] e.op = "pack" -> e.w = Pack(C(e.c)) /\ C(e.back) = C(e.c) /\ e.eqw /\ (e.eqv = (e.v = e.w))
    [] e.op = "unpack" -> Pack(C(e.c)) = e.w
    [] e.op = "default" -> e.dead /\ C(e.c).d
    [] e.op = "dead" -> C(e.r) = Dead(C(e.c)) /\ e.isdead /\ e.was = C(e.c).d
    [] e.op = "str" -> e.s1 = Str(C(e.c)) /\ e.s2 = Str(C(e.c)) /\ e.s3 = Str(C(e.c))
    [] e.op = "wrap" -> C(e.r) = Wrap(e.t, C(e.c), C(e.ar))
    [] e.op = "size" -> e.area = Area(e.t, C(e.c)) /\ e.volume = Volume(e.t, C(e.c))
    [] e.op = "add" -> C(e.r) = AddC(e.t, C(e.a), C(e.b))
    [] e.op = "sub" -> C(e.r) = SubC(e.t, C(e.a), C(e.b))
    [] e.op = "toF" -> IF C(e.c).d THEN C(e.r).d ELSE C(e.r) = ToFiction(C(e.c))
    [] e.op = "toS" -> C(e.r) = ToSiqad(C(e.c))
    [] e.op = "toC" -> C(e.r) = ToCube(C(e.c))
=============================================================================
