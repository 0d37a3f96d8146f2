------------------------------ MODULE Verify ------------------------------
(***************************************************************************)
(* What the verification algorithms decide about layouts and networks:     *)
(* design rules, function, critical path and throughput.                   *)
(*                                                                         *)
(* A network document is [n: number of inputs, nd: <<[f, ch]>>, po: <<ref>>*)
(* ]; nodes are numbered 0 (constant 0), 1..n (inputs), n+1.. (nd, in      *)
(* topological order); a reference is <<node, inverted>>.                  *)
(***************************************************************************)
EXTENDS Doc, SequencesExt

(* ---- design rules ---- *)
\* the node a signal comes from sits on the signal's tile
Lives(s, c) == Len(c) = 3 /\ c \in DOMAIN s.at
Children(s, t) == N(s, s.at[t]).ch
\* <<tile, its k-th incoming signal>> for all nodes
Links(s) == {<<t, k>> : t \in DOMAIN s.at, k \in 1..12} \cap UNION {{<<t, k>> : k \in 1..Len(Children(s, t))} : t \in DOMAIN s.at}
From(s, l) == Children(s, l[1])[l[2]]
\* connections that lead from nowhere or from a tile that is not nearby
FarLinks(s) == {l \in Links(s) : ~(Lives(s, From(s, l)) /\ AdjElevation(s.k.g, l[1], From(s, l)))}
\* connections against the clocking (a source that is gone has no clock zone and may be listed or not)
BackLinks(s) == {l \in Links(s) : Lives(s, From(s, l)) /\ ~Incoming(s.k, l[1], From(s, l))}
LostLinks(s) == {l \in Links(s) : ~Lives(s, From(s, l))}
Open(s) == {t \in DOMAIN s.at : \/ Fanins(s, TRUE, s.at[t]) = <<>> /\ ~IsPi(s, s.at[t])
                                \/ Fanouts(s, TRUE, s.at[t]) = {} /\ ~IsPo(s, s.at[t])}
\* wires in the crossing layer without a wire underneath
BadCrossings(s) == {t \in DOMAIN s.at : t[3] > 0 /\ IsWire(s, s.at[t])
                       /\ ~(<<t[1], t[2], t[3]-1>> \in DOMAIN s.at /\ IsWire(s, s.at[<<t[1], t[2], t[3]-1>>]))}
Unplaced(s) == {n \in Nodes(s) : ~N(s, n).dead /\ ~Placed(s, n)}
\* inputs and outputs in sequence; an output is the node on its tile
Ios(s) == s.pis \o [k \in 1..Len(s.pos) |-> NodeAt(s, s.pos[k])]
IosWhere(s, P(_)) == Cardinality({k \in 1..Len(Ios(s)) : P(Ios(s)[k])})
GoneIos(s) == IosWhere(s, LAMBDA n : n = 0 \/ ~Placed(s, n))
GateIos(s) == IosWhere(s, LAMBDA n : n = 0 \/ ~IsWire(s, n))
AtBorder(g, t) == t[1] = 0 \/ t[2] = 0 \/ t[1] = g.X \/ t[2] = g.Y
InnerIos(s) == IosWhere(s, LAMBDA n : n # 0 /\ Placed(s, n) /\ ~AtBorder(s.k.g, N(s, n).t))
NoIo(s) == (IF s.pis = <<>> THEN 1 ELSE 0) + (IF s.pos = <<>> THEN 1 ELSE 0)
Rules == <<"unplaced", "dead", "adjacent", "connected", "crossing", "clocked", "hasio", "emptyio", "pins", "border">>
Breaches(s, r) ==
  IF DOMAIN s.at = {} THEN 0 ELSE
  CASE r = "unplaced"  -> Cardinality(Unplaced(s))
    [] r = "dead"      -> 0
    [] r = "adjacent"  -> Cardinality(FarLinks(s))
    [] r = "connected" -> Cardinality(Open(s))
    [] r = "crossing"  -> Cardinality(BadCrossings(s))
    [] r = "clocked"   -> Cardinality(BackLinks(s))
    [] r = "hasio"     -> NoIo(s)
    [] r = "emptyio"   -> GoneIos(s)
    [] r = "pins"      -> GateIos(s)
    [] OTHER           -> InnerIos(s)
Serious == {"adjacent", "connected", "crossing", "clocked", "hasio", "emptyio"}
Doubtful(s, r) == IF r = "clocked" /\ DOMAIN s.at # {} THEN Cardinality(LostLinks(s)) ELSE 0
Violations(s) == Breaches(s, "adjacent") + Breaches(s, "connected") + Breaches(s, "crossing") + Breaches(s, "clocked") + Breaches(s, "hasio") + Breaches(s, "emptyio")
\* tiles a rule's report lists (tiles that host no node any more are left out)
Listed(s, r) ==
  IF DOMAIN s.at = {} THEN {} ELSE
  CASE r = "adjacent"  -> {l[1] : l \in FarLinks(s)} \cup ({From(s, l) : l \in FarLinks(s)} \cap DOMAIN s.at)
    [] r = "connected" -> Open(s)
    [] r = "crossing"  -> BadCrossings(s)
    [] r = "clocked"   -> {l[1] : l \in BackLinks(s)} \cup ({From(s, l) : l \in BackLinks(s)} \cap DOMAIN s.at)
    [] r = "pins"      -> {N(s, n).t : n \in {m \in {Ios(s)[k] : k \in 1..Len(Ios(s))} : m # 0 /\ Placed(s, m) /\ ~IsWire(s, m)}}
    [] r = "border"    -> {N(s, n).t : n \in {m \in {Ios(s)[k] : k \in 1..Len(Ios(s))} : m # 0 /\ Placed(s, m) /\ ~AtBorder(s.k.g, N(s, m).t)}}
    [] OTHER           -> {}
Letter(d) == CASE d = "n" -> "N" [] d = "e" -> "E" [] d = "s" -> "S" [] OTHER -> "W"
Letters(D) == LET w(d) == IF d \in D THEN Letter(d) ELSE "" IN w("n") \o w("e") \o w("s") \o w("w")
Text(s, t) == "node: " \o ToString(s.at[t]) \o ", clk: " \o ToString(Clk(s.k, t)) \o ", se: " \o ToString(Se(s.k, t))
              \o ", inp: " \o Letters(InDirs(s, TRUE, t)) \o ", out: " \o Letters(OutDirs(s, TRUE, t))
              \o (IF IsPi(s, s.at[t]) THEN ", PI" ELSE "") \o (IF IsPo(s, s.at[t]) THEN ", PO" ELSE "")

(* ---- function ---- *)
Rows(n) == 1..(2^n)
Bit(r, k) == ((r - 1) \div 2^(k-1)) % 2                       \* value of input k in row r
InputTT(n, k) == TLCEval([r \in Rows(n) |-> Bit(r, k)])
ConstTT(n, v) == [r \in Rows(n) |-> v]
\* value of a node given the tables of its inputs
Apply(n, f, ins) == TLCEval([r \in Rows(n) |-> f[1 + Pattern([k \in 1..Len(ins) |-> ins[k][r]])]])
Inv(n, t, c) == IF c = 1 THEN TLCEval([r \in Rows(n) |-> 1 - t[r]]) ELSE t
\* the outputs of a network document, as tables over all input assignments
NetOutputs(d) ==
  LET RECURSIVE go(_, _)
      go(k, v) == IF k > Len(d.nd) THEN v
                  ELSE go(k + 1, Append(v, Apply(d.n, d.nd[k].f, [q \in 1..Len(d.nd[k].ch) |-> Inv(d.n, v[1 + d.nd[k].ch[q][1]], d.nd[k].ch[q][2])])))
      v == go(1, <<ConstTT(d.n, 0)>> \o [k \in 1..d.n |-> InputTT(d.n, k)])
  IN TLCEval([p \in 1..Len(d.po) |-> Inv(d.n, v[1 + d.po[p][1]], d.po[p][2])])
\* a layout's tiles in an order in which signals flow: every node after its sources
RECURSIVE Settle(_, _, _)
Settle(s, done, q) ==
  LET rdy == {t \in DOMAIN s.at \ done : \A k \in 1..Len(Children(s, t)) : Children(s, t)[k] \in done} IN
  IF rdy = {} THEN q ELSE Settle(s, done \cup rdy, q \o SetToSeq(rdy))
FlowOrder(s) == Settle(s, {}, <<>>)
PiIndex(s, m) == CHOOSE k \in 1..Len(s.pis) : s.pis[k] = m
LayoutTables(s) ==
  LET n == Len(s.pis)
      o == FlowOrder(s)
      RECURSIVE go(_, _)
      go(k, v) == IF k > Len(o) THEN v
                  ELSE LET t == o[k]  m == s.at[t]
                       IN go(k + 1, (t :> (IF IsPi(s, m) THEN InputTT(n, PiIndex(s, m))
                                           ELSE Apply(n, N(s, m).fn, [q \in 1..Len(Children(s, t)) |-> v[Children(s, t)[q]]]))) @@ v)
  IN go(1, <<>>)
LayoutOutputs(s) == LET v == LayoutTables(s) IN TLCEval([p \in 1..Len(s.pos) |-> v[s.pos[p]]])

(* ---- timing ---- *)
\* along the longest way from an input to t: [len: tiles, arr: time of arrival]
Path0(s, t) == [len |-> 1, arr |-> Clk(s.k, t)]
Timing(s) ==
  LET o == FlowOrder(s)
      RECURSIVE go(_, _)
      go(k, v) == IF k > Len(o) THEN v
                  ELSE LET t == o[k]
                           I == {Children(s, t)[q] : q \in 1..Len(Children(s, t))}
                           b == CHOOSE c \in I : \A d \in I : v[c].len >= v[d].len
                       IN go(k + 1, (t :> (IF I = {} THEN Path0(s, t) ELSE [len |-> v[b].len + 1, arr |-> v[b].arr + 1])) @@ v)
  IN go(1, <<>>)
RECURSIVE Feeding(_, _)
Feeding(s, S) == LET M == S \cup UNION {{Children(s, t)[q] : q \in 1..Len(Children(s, t))} : t \in S} IN IF M = S THEN S ELSE Feeding(s, M)
PoSet(s) == {s.pos[k] : k \in 1..Len(s.pos)}
Longest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
CriticalPath(s) == LET v == Timing(s) IN Longest({v[t].len : t \in PoSet(s)})
Skew(s, v, t) == LET A == {v[Children(s, t)[q]].arr : q \in 1..Len(Children(s, t))} IN IF A = {} THEN 0 ELSE Longest(A) - (CHOOSE x \in A : \A y \in A : x <= y)
Throughput(s) == LET v == Timing(s) IN 1 + Longest({Skew(s, v, t) : t \in Feeding(s, PoSet(s))}) \div s.k.n
(* ---- gate types ---- *)
TypeOrder == <<"buf", "inv", "and", "or", "nand", "nor", "xor", "xnor", "lt", "gt", "le", "ge", "maj">>
TypeOf(s, n) == IF IsWire(s, n) /\ Placed(s, n) /\ Cardinality(Fanouts(s, TRUE, n)) > 1 THEN "fanout"
                ELSE IF \E k \in 1..Len(TypeOrder) : Fn[TypeOrder[k]] = N(s, n).fn
                     THEN LET k == CHOOSE k \in 1..Len(TypeOrder) : Fn[TypeOrder[k]] = N(s, n).fn IN TypeOrder[k] ELSE "other"
TypeCount(s, q) == Cardinality({n \in Nodes(s) : ~N(s, n).dead /\ TypeOf(s, n) = q})
=============================================================================
