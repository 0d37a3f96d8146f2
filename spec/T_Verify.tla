------------------------------ MODULE T_Verify ------------------------------
(* design rule reports on layouts under editing; equivalence, miters and timing on documents *)
EXTENDS Verify, TraceCheck
Ran(q) == {q[n] : n \in 1..Len(q)}
NoDup(q) == Cardinality(Ran(q)) = Len(q)
VInit(hh) == IF "doc" \in DOMAIN hh.init THEN FromDoc(hh.init.doc) ELSE <<>>
VStep(s, e) ==
  CASE e.op = "pi"      -> CreatePi(s, e.nm, e.t)
    [] e.op = "po"      -> CreatePo(s, e.c, e.nm, e.t)
    [] e.op = "create"  -> Create(s, Fn[e.fn], e.ch, e.t)
    [] e.op = "move"    -> Move(s, e.n, e.t, e.ch)
    [] e.op = "clear"   -> Clear(s, e.t)
    [] e.op = "connect" -> Connect(s, e.c, e.n)
    [] e.op = "clk"     -> [s EXCEPT !.k = Assign(s.k, e.t, e.c)]
    [] e.op = "se"      -> [s EXCEPT !.k = SetSe(s.k, e.t, e.c)]
    [] OTHER -> s
\* a rule checked on its own: q.c findings in the report of tiles q.l = <<tile, text>>
RuleGood(s, r, q) ==
  LET b == Breaches(s, r)  d == Doubtful(s, r) IN
  /\ q.c >= b /\ q.c <= b + d /\ q.fail = (q.c > 0)
  /\ (r \in Serious => q.warn = 0 /\ q.drv = q.c) /\ (r \notin Serious => q.drv = 0 /\ q.warn = q.c)
  /\ r \in {"adjacent", "clocked", "connected", "crossing", "pins", "border"} =>
       LET lost == r \in {"adjacent", "clocked", "pins"} /\ (LostLinks(s) # {} \/ GoneIos(s) > 0)
           got == {q.l[k][1] : k \in 1..Len(q.l)} IN
       /\ Listed(s, r) \subseteq got \cup (IF lost THEN {<<0,0,0>>} ELSE {})
       /\ d = 0 => got \subseteq Listed(s, r) \cup (IF lost THEN {<<0,0,0>>} ELSE {})
       /\ \A k \in 1..Len(q.l) : (q.l[k][1] \in DOMAIN s.at /\ ~(lost /\ q.l[k][1] = <<0,0,0>>)) => q.l[k][2] = Text(s, q.l[k][1])
  /\ r = "unplaced" => Ran(q.l) = Unplaced(s)
  /\ r = "emptyio" => (q.l # <<>>) = (b > 0)
DrvGood(s, e) ==
  /\ \A r \in Ran(Rules) : RuleGood(s, r, e.rules[r])
  /\ e.drv = FoldSeq(LAMBDA r, a : IF r \in Ran(e.on) /\ r \in Serious THEN a + e.rules[r].c ELSE a, 0, Rules)
  /\ e.warn = FoldSeq(LAMBDA r, a : IF r \in Ran(e.on) /\ r \notin Serious THEN a + e.rules[r].c ELSE a, 0, Rules)
  /\ e.same
  /\ DOMAIN s.at # {} => e.io = <<Len(s.pis), Len(s.pis), Len(s.pos), Len(s.pos)>>
IsLyt(x) == x.k = "lyt"
Ins(x) == IF IsLyt(x) THEN Len(x.d.pis) ELSE x.d.n
OutCount(x) == IF IsLyt(x) THEN Len(x.d.pos) ELSE Len(x.d.po)
Broken(x) == IF IsLyt(x) THEN Violations(FromDoc(x.d)) ELSE 0
Outs(x) == IF IsLyt(x) THEN LayoutOutputs(FromDoc(x.d)) ELSE NetOutputs(x.d)
Tp(x) == IF IsLyt(x) THEN Throughput(FromDoc(x.d)) ELSE 1
Dist(a, b) == IF a < b THEN b - a ELSE a - b
EqGood(e) ==
  IF Broken(e.a) > 0 THEN e.res = "NO" /\ e.drva = Broken(e.a)
  ELSE IF Broken(e.b) > 0 THEN e.res = "NO" /\ e.drva = 0 /\ e.drvb = Broken(e.b)
  ELSE IF Ins(e.a) # Ins(e.b) \/ OutCount(e.a) # OutCount(e.b) THEN e.res = "NO"
  ELSE LET A == Outs(e.a)  B == Outs(e.b) IN
    IF A = B THEN /\ e.cex = <<>> /\ e.tpa = Tp(e.a) /\ e.tpb = Tp(e.b) /\ e.diff = Dist(e.tpa, e.tpb)
                  /\ e.res = (IF e.tpa = e.tpb THEN "STRONG" ELSE "WEAK")
    ELSE /\ e.res = "NO" /\ Len(e.cex) = Ins(e.a)
         /\ LET r == 1 + Pattern(e.cex) IN \E p \in 1..Len(A) : A[p][r] # B[p][r]
\* a network document without its virtual inputs (numbers of the inputs in v): these are no inputs of the miter
MiterGood(e) ==
  LET n1 == e.a.d.n - Len(e.va)  n2 == e.b.d.n - Len(e.vb) IN
  IF n1 # n2 \/ OutCount(e.a) # OutCount(e.b) THEN ~e.some
  ELSE /\ e.some /\ e.m.n = n1 /\ Len(e.m.po) = 1
       \* virtual inputs stand for inputs: e.ma[k] is the input of the miter that input k stands for
       /\ \E A \in {NetOutputs(e.a.d)}, B \in {NetOutputs(e.b.d)}, M \in {NetOutputs(e.m)[1]} :
            LET row(mp, r) == 1 + Pattern([k \in 1..Len(mp) |-> Bit(r, mp[k])]) IN
            \A r \in Rows(n1) : M[r] = IF \E p \in 1..Len(A) : A[p][row(e.ma, r)] # B[p][row(e.mb, r)] THEN 1 ELSE 0
TimeGood(e) == LET s == FromDoc(e.d) IN
  /\ e.cp = CriticalPath(s)
  /\ e.sync \/ e.tp = Throughput(s)
TypesGood(e) == LET s == FromDoc(e.d) IN \A q \in DOMAIN e.c : e.c[q] = (IF q = "total" THEN Cardinality({n \in Nodes(s) : ~N(s, n).dead}) ELSE TypeCount(s, q))
VGood(s0, s, e) ==
  CASE e.op = "drv"   -> DrvGood(s, e)
    [] e.op = "eq"    -> EqGood(e)
    [] e.op = "miter" -> MiterGood(e)
    [] e.op = "time"  -> TimeGood(e)
    [] e.op = "types" -> TypesGood(e)
    [] OTHER -> TRUE
=============================================================================
