----------------------------- MODULE T_Networks -----------------------------
EXTENDS Networks, TraceCheck
NwInit(hh) == NNew @@ [rk |-> <<>>]
NwStep(s, e) ==
  CASE e.op = "pi"    -> AddPi(s)
    [] e.op = "vpi"   -> AddVirtual(s, e.of)
    [] e.op = "gate"  -> AddGate(s, e.g, e.ch)
    [] e.op = "node"  -> AddNode(s, e.f, e.ch)
    [] e.op = "po"    -> AddPo(s, e.n)
    [] e.op = "subst" -> SubstPos(s)
    [] e.op = "rank"  -> RankStep(s, e)
    [] OTHER -> s
Seqs(S) == SetToSeq(S)
Same(q, S) == ToSet(q) = S /\ Len(q) = Cardinality(S)
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Bag(q, p) == Len(q) = Len(p) /\ \A x \in ToSet(q) \cup ToSet(p) : Count(q, x) = Count(p, x)
Preds(s, w1) ==
  (IF IsGate(s, w1) THEN {g \in GateNames : Gate[g] = Nd(s, w1).f} ELSE {})
  \cup (IF IsFan(s, w1) THEN {"fanout"} ELSE {}) \cup (IF w1 \in ToSet(s.po) THEN {"po"} ELSE {}) \cup (IF Nd(s, w1).k = "pi" THEN {"pi"} ELSE {})
Kinds3 == {"fanout"} \cup GateNames
NetGood(s, e) ==
  /\ e.size = Len(s.nd) /\ e.pis = Inputs(s) /\ e.npi = Len(e.pis) /\ e.pos = s.po /\ e.npo = Len(s.po)
  /\ e.ngates = Cardinality({w1 \in Ids(s) : IsGate(s, w1)})
  /\ Len(e.nodes) = Len(s.nd)
  /\ \A k \in 1..Len(e.nodes) : LET x == e.nodes[k]  w1 == k - 1 IN
       /\ x.id = w1 /\ x.ch = Nd(s, w1).ch /\ (IsGate(s, w1) => x.f = Nd(s, w1).f) /\ (w1 > 1 => x.uses = Uses(s, w1)) /\ (w1 > 1 => ToSet(x.is) = Preds(s, w1))
  \* every gate is counted once
  /\ \A g \in DOMAIN e.c : e.c[g] = Cardinality({w1 \in Ids(s) : KindOf(s, w1) = g})
  /\ LET all == Cardinality({w1 \in Ids(s) : IsGate(s, w1)})
         named == FoldSet(LAMBDA g, a : a + e.c[g], 0, DOMAIN e.c)
         main == FoldSet(LAMBDA g, a : a + e.c[g], 0, {"fanout", "buf", "not", "and", "or", "nand", "nor", "xor", "xnor", "maj"}) IN
     e.total = <<all, all>> /\ e.other = all - named /\ e.rest = all - main
  /\ e.v.x = 1 =>
       LET V == SelectSeq(Inputs(s), LAMBDA w1 : w1 \in DOMAIN s.vr)  R == Real(s) IN
       /\ e.v.vp = V /\ e.v.vc = V /\ e.v.rp = R /\ e.v.rc = R /\ e.v.isv = V /\ e.v.isr = R /\ e.v.icv = V /\ e.v.icr = R /\ e.v.nv = <<Len(V), Len(V)>> /\ e.v.nr = <<Len(R), Len(R)>>
       /\ e.v.size = Len(s.nd) - Len(V) /\ e.v.mp = [k \in 1..Len(V) |-> <<V[k], s.vr[V[k]]>>]
Flip(f) == [k \in 1..Len(f) |-> 1 - f[k]]
\* named functions; "less than" may read its operands in either order, but the four comparisons agree
TtsGood(e) ==
  /\ \A g \in DOMAIN e.t : e.t[g] = Gate[g]
  /\ {e.lt, e.gt} = {Gate.lt, Gate.gt} /\ e.le = Flip(e.gt) /\ e.ge = Flip(e.lt)
  /\ e.wire2 = <<<<0,0,1,1>>, <<0,1,0,1>>>> /\ e.cross = <<<<0,1,0,1>>, <<0,0,1,1>>>> /\ e.fan = <<<<0,1>>, <<0,1>>>> /\ e.ha = <<<<0,1,1,0>>, <<0,0,0,1>>>>
NaryTT(g, n) == [r \in Rows(n) |-> LET c == Cardinality({k \in 1..n : Bit(r, k) = 1}) IN
                   CASE g = "and" -> IF c = n THEN 1 ELSE 0 [] g = "or" -> IF c > 0 THEN 1 ELSE 0 [] OTHER -> c % 2]
\* ---- transformations ----
\* (networks that share equal nodes may merge named ones)
NamesKept(e) ==
  e.named => /\ e.nb.net = e.na.net /\ e.nb.out = e.na.out
             /\ e.klut => e.nb.in = (IF e.k = "devirt" /\ e.va # <<>> THEN [k \in 1..e.b.n |-> e.na.in[SelectSeq([j \in 1..e.a.n |-> j], LAMBDA j : \A p \in 1..Len(e.va) : e.va[p][1] # j)[k]]] ELSE e.na.in)
\* signal names stay at signals of the same function (over the same inputs), unless the network is a plain cleaned-up copy
SignalsKept(e) ==
  (e.named /\ e.va = <<>> /\ ~e.same /\ e.klut) =>
    \E A \in {DTables(e.a)}, B \in {DTables(e.b)} :
      \A p \in 1..Len(e.na.sig) : (\E k \in DAlive(e.a) : k > e.a.n /\ \E q \in 1..Len(DCh(e.a, k - e.a.n)) : DCh(e.a, k - e.a.n)[q] = <<e.na.sig[p][2], 0>>) => \E q \in 1..Len(e.nb.sig) : e.nb.sig[q][1] = e.na.sig[p][1] /\ B[e.nb.sig[q][2] + 1] = A[e.na.sig[p][2] + 1]
FunctionKept(e) == e.b.n = e.a.n /\ NetOutputs(e.a) = NetOutputs(e.b)
DevirtGood(e) ==
  LET keep == SelectSeq([j \in 1..e.a.n |-> j], LAMBDA j : \A p \in 1..Len(e.va) : e.va[p][1] # j)
      stand(j) == IF \E p \in 1..Len(e.va) : e.va[p][1] = j THEN LET p == CHOOSE p \in 1..Len(e.va) : e.va[p][1] = j IN e.va[p][2] ELSE j
      at(j) == CHOOSE k \in 1..Len(keep) : keep[k] = stand(j) IN
  /\ e.left = 0 /\ e.b.n = Len(keep) /\ Len(e.b.po) = Len(e.a.po)
  /\ \E A \in {NetOutputs(e.a)}, B \in {NetOutputs(e.b)}, m \in {TLCEval([j \in 1..e.a.n |-> at(j)])} :
       \A r \in Rows(e.b.n) : \A p \in 1..Len(A) : B[p][r] = A[p][1 + Pattern([j \in 1..e.a.n |-> Bit(r, m[j])])]
XfGood(e) ==
  /\ NamesKept(e)
  /\ CASE e.k = "convert" -> FunctionKept(e) /\ SignalsKept(e)
       [] e.k = "fanout" -> /\ FunctionKept(e) /\ SignalsKept(e)
                            /\ e.is /\ Substituted(e.b, e.degree, e.threshold)
                            \* (networks without buffers have no fan-out nodes)
                            /\ (e.buf => e.was = Substituted(e.a, e.degree, e.threshold))
                            /\ (e.same => RealGates(e.a) = RealGates(e.b))
       [] e.k = "balance" -> /\ FunctionKept(e) /\ SignalsKept(e)
                             /\ e.is /\ Balanced(e.b, e.unify) /\ e.was = Balanced(e.a, e.unify)
                             /\ (e.same => RealGates(e.a) = RealGates(e.b))
                             /\ (e.same => LET A == DLevel(e.a)  B == DLevel(e.b) IN
                                  Longest({A[e.a.po[p][1] + 1] : p \in 1..Len(e.a.po)}) = Longest({B[e.b.po[p][1] + 1] : p \in 1..Len(e.b.po)}))
       [] OTHER -> DevirtGood(e)
\* ---- views ----
LevelsGood(s, e) == LET lv == ViewLevel(s) IN e.lv = lv /\ e.depth = Depth(s, lv) /\ ToSet(e.cp) = CriticalNodes(s, lv)
BfsGood(s, e) ==
  LET lv == Level(s)  n == Len(s.nd)  P == Inputs(s) IN
  /\ Same(e.a, Ids(s)) /\ e.size = n
  /\ SubSeq(e.a, 1, 2 + Len(P)) = <<0, 1>> \o P
  /\ \A k \in 1..(n - 1) : lv[e.a[k] + 1] <= lv[e.a[k + 1] + 1]
  /\ e.b = Reverse(e.a) /\ e.c = SubSeq(e.a, 3 + Len(P), n) /\ e.d = Reverse(e.c) /\ e.gates = Len(e.c)
  /\ e.ix = [k \in 1..n |-> <<k - 1, e.a[k]>>]
NodeEdges(s, w1) == [q \in 1..Len(Nd(s, w1).ch) |-> <<Nd(s, w1).ch[q], w1>>]
EdgesGood(s, e) ==
  /\ Bag(e.all, FoldSeq(LAMBDA w1, a : a \o NodeEdges(s, w1), <<>>, [j \in 1..Len(s.nd) |-> j - 1]))
  /\ \A k \in 1..Len(e.per) :
       LET x == e.per[k]  w1 == x.id  ch == Nd(s, w1).ch
           real == SelectSeq(ch, LAMBDA c : c > 1)
           cs == SelectSeq(ch, LAMBDA c : c <= 1) IN
       /\ Same(x.fo, Readers(s, w1)) /\ x.out = [q \in 1..Len(x.fo) |-> <<w1, x.fo[q]>>]
       /\ x.in = NodeEdges(s, w1) /\ x.nc = Len(cs) /\ x.fe = [q \in 1..Len(real) |-> <<real[q], w1>>]
       /\ Len(cs) <= 1 => x.fi = real /\ x.cf = (IF cs = <<>> THEN 2 ELSE cs[1])
       /\ x.ip = (\E q \in 1..Len(ch) : Nd(s, ch[q]).k = "pi")
       /\ (x.np <= 30 => \E P \in {PathsTo(s, w1)} : x.np = Len(P) /\ Bag(x.paths, P))
  /\ e.hi = [t \in 1..4 |-> \E w1 \in Ids(s) : w1 > 1 /\ Len(SelectSeq(Nd(s, w1).ch, LAMBDA c : c > 1)) > t - 1]
  /\ e.inv # <<>> => \A w1 \in Alive(s) : w1 > 1 => e.inv[w1 + 1] = Height(s, w1)
ColorsGood(e) ==
  LET RECURSIVE go(_, _)
      col(m, x) == IF x \in DOMAIN m THEN m[x] ELSE 0
      go(k, m) == k > Len(e.ops) \/
        LET o == e.ops[k]
            m2 == CASE o.o = "clear" -> <<>>
                    [] o.o = "paint" -> (o.e :> o.c) @@ m
                    [] o.o = "like" -> (o.e :> col(m, o.f)) @@ m
                    [] OTHER -> m IN
        /\ \A q \in 1..Len(o.see) : o.see[q][2] = col(m2, o.see[q][1]) /\ o.see[q][3] = (col(m2, o.see[q][1]) % 2 = 1)
        /\ o.o = "same" => o.r = (col(m, o.e) <= col(m, o.f))
        /\ go(k + 1, m2)
  IN go(1, <<>>)
ClevelsGood(e) ==
  LET d == e.d
      RECURSIVE go(_, _)
      go(j, v) == IF j > Len(d.nd) THEN v
                  ELSE go(j + 1, Append(v, 1 + Longest({v[DCh(d, j)[q][1] + 1] + (IF e.cc THEN DCh(d, j)[q][2] ELSE 0) : q \in 1..Len(DCh(d, j))})))
      lv == go(1, [w1 \in 1..(d.n + 1) |-> 0])
      A == DAlive(d) IN
  /\ \A p \in 1..Len(e.lv) : e.lv[p][2] = (IF e.lv[p][1] \in A THEN lv[e.lv[p][1] + 1] ELSE 0)
  /\ e.depth = Longest({lv[d.po[p][1] + 1] + (IF e.cc THEN d.po[p][2] ELSE 0) : p \in 1..Len(d.po)})
GatesOf(s, q) == SelectSeq(q, LAMBDA w1 : Nd(s, w1).k # "pi")
Flat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
RankGood(s, e) ==
  /\ e.all = s.rk /\ e.gr = s.rk /\ e.at = s.rk /\ e.nr = s.rk /\ e.gi = [l \in 1..Len(s.rk) |-> GatesOf(s, s.rk[l])]
  /\ e.w = [l \in 1..Len(s.rk) |-> Len(s.rk[l])] /\ e.width = Longest(ToSet(e.w))
  /\ Len(e.pos) = Len(Flat(s.rk)) /\ \A k \in 1..Len(e.pos) : LET x == e.pos[k]  p == Spot(s, x[1]) IN x[2] = p[2] - 1 /\ x[3] = p[1] - 1
  /\ e.no = Flat(s.rk) /\ e.gs = GatesOf(s, Flat(s.rk))
  /\ e.pi = SelectSeq(Flat(s.rk), LAMBDA w1 : Nd(s, w1).k = "pi") \/ (\E k \in 1..Len(s.rk[1]) : IsGate(s, s.rk[1][k]))
  /\ ToSet(e.pi) = ToSet(Inputs(s)) /\ e.ci = e.pi /\ e.un = Inputs(s)
  /\ e.valid
OwnGood(s, e) ==
  LET lv == ViewLevel(s) IN
  /\ e.all = e.q
  /\ e.valid = (\A l \in 1..Len(e.q) : \A k \in 1..Len(e.q[l]) : lv[e.q[l][k] + 1] = l - 1)
NwGood(s0, s, e) ==
  CASE e.op \in {"pi", "vpi", "node"} -> e.id = Len(s0.nd)
    [] e.op = "gate" -> e.id = GateId(s0, e.g, e.ch)
    [] e.op = "net" -> NetGood(s, e)
    [] e.op = "tts" -> TtsGood(e)
    [] e.op = "eval" -> e.r = FoldSeq(LAMBDA k, a : a + 2^(k-1) * e.t[k][e.x + 1], 0, [k \in 1..Len(e.t) |-> k])
    [] e.op = "nary" -> NetOutputs(e.d) = <<NaryTT(e.g, e.n)>>
    [] e.op = "subst" -> Functions(s0) = Functions(s)
    [] e.op = "xf" -> XfGood(e)
    [] e.op = "levels" -> LevelsGood(s, e)
    [] e.op = "bfs" -> BfsGood(s, e)
    [] e.op = "edges" -> EdgesGood(s, e)
    [] e.op = "colors" -> ColorsGood(e)
    [] e.op = "clevels" -> ClevelsGood(e)
    [] e.op = "rank" -> RankGood(s, e)
    [] e.op = "own" -> OwnGood(s, e)
    [] OTHER -> TRUE
=============================================================================
