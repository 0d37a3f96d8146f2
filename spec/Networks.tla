------------------------------ MODULE Networks ------------------------------
(***************************************************************************)
(* Logic networks built step by step: nodes 0 and 1 are the constants, all *)
(* others are inputs or gates in the order of their creation.              *)
(*                                                                         *)
(* s.nd[i] describes node i-1: [k: "const"|"pi"|"gate", f: table, ch:      *)
(* nodes]; s.po: nodes; s.vr: virtual inputs -> the inputs they stand for. *)
(***************************************************************************)
EXTENDS Verify

\* functions by name; the table's k-th input is bit k-1 of the row number
Gate == [buf |-> <<0,1>>, not |-> <<1,0>>, and |-> <<0,0,0,1>>, nand |-> <<1,1,1,0>>, or |-> <<0,1,1,1>>, nor |-> <<1,0,0,0>>,
         lt |-> <<0,1,0,0>>, ge |-> <<1,0,1,1>>, gt |-> <<0,0,1,0>>, le |-> <<1,1,0,1>>, xor |-> <<0,1,1,0>>, xnor |-> <<1,0,0,1>>,
         maj |-> <<0,0,0,1,0,1,1,1>>, ite |-> <<0,0,0,1,1,0,1,1>>, xor3 |-> <<0,1,1,0,1,0,0,1>>, dot |-> <<0,1,0,0,1,0,1,0>>,
         and3 |-> <<0,0,0,0,0,0,0,1>>, xor_and |-> <<0,0,0,1,0,1,0,0>>, or_and |-> <<0,0,0,1,0,1,0,1>>, onehot |-> <<0,1,1,0,1,0,0,0>>,
         gamble |-> <<1,0,0,0,0,0,0,1>>, and_xor |-> <<0,1,0,1,0,1,1,0>>]
GateNames == DOMAIN Gate

Const(f) == [k |-> "const", f |-> f, ch |-> <<>>]
NNew == [nd |-> <<Const(<<0>>), Const(<<1>>)>>, po |-> <<>>, vr |-> <<>>]
Nd(s, i) == s.nd[i + 1]
Ids(s) == 0..(Len(s.nd) - 1)
IsGate(s, i) == Nd(s, i).k = "gate"
Inputs(s) == SelectSeq([j \in 1..Len(s.nd) |-> j - 1], LAMBDA i : Nd(s, i).k = "pi")
\* fan-outs: connections from the node, to gates and outputs
Uses(s, i) == FoldSeq(LAMBDA v, a : a + Cardinality({p \in 1..Len(v.ch) : v.ch[p] = i}), 0, s.nd)
              + Cardinality({p \in 1..Len(s.po) : s.po[p] = i})
IsBuf(s, i) == IsGate(s, i) /\ Nd(s, i).f = Gate.buf
IsFan(s, i) == IsBuf(s, i) /\ Uses(s, i) > 1

(* ---- transitions ---- *)
AddPi(s) == [s EXCEPT !.nd = Append(@, [k |-> "pi", f |-> Gate.buf, ch |-> <<>>])]
AddVirtual(s, r) == [AddPi(s) EXCEPT !.vr = (Len(s.nd) :> r) @@ @]
AddNode(s, f, ch) == [s EXCEPT !.nd = Append(@, [k |-> "gate", f |-> f, ch |-> ch])]
\* an inverter of a constant is a constant; a function without inputs is one
AddGate(s, g, ch) == IF g = "not" /\ ch[1] \in {0, 1} THEN s ELSE AddNode(s, Gate[g], ch)
GateId(s, g, ch) == IF g = "not" /\ ch[1] \in {0, 1} THEN 1 - ch[1] ELSE Len(s.nd)
AddPo(s, i) == [s EXCEPT !.po = Append(@, i)]
\* every output gets a buffer of its own
RECURSIVE OwnBufs(_, _)
OwnBufs(s, p) == IF p > Len(s.po) THEN s
                 ELSE OwnBufs(IF IsBuf(s, s.po[p]) /\ ~IsFan(s, s.po[p]) THEN s
                              ELSE [AddNode(s, Gate.buf, <<s.po[p]>>) EXCEPT !.po[p] = Len(s.nd)], p + 1)
SubstPos(s) == OwnBufs(s, 1)

(* ---- function ---- *)
Real(s) == SelectSeq(Inputs(s), LAMBDA i : i \notin DOMAIN s.vr)
Stand(s, i) == IF i \in DOMAIN s.vr THEN s.vr[i] ELSE i
\* tables of all nodes over the assignments of the real inputs
Tables(s) ==
  LET R == Real(s)  n == Len(R)
      RECURSIVE go(_, _)
      go(j, v) == IF j > Len(s.nd) THEN v
                  ELSE go(j + 1, Append(v, CASE s.nd[j].k = "const" -> ConstTT(n, s.nd[j].f[1])
                                             [] s.nd[j].k = "pi" -> InputTT(n, CHOOSE q \in 1..n : R[q] = Stand(s, j - 1))
                                             [] OTHER -> Apply(n, s.nd[j].f, [q \in 1..Len(s.nd[j].ch) |-> v[s.nd[j].ch[q] + 1]])))
  IN go(1, <<>>)
Functions(s) == LET v == Tables(s) IN [p \in 1..Len(s.po) |-> v[s.po[p] + 1]]

(* ---- gate counts ---- *)
CountOrder == <<"buf", "not", "and", "or", "nand", "nor", "xor", "xnor", "lt", "gt", "le", "ge", "maj", "dot", "and3", "xor_and", "or_and", "onehot", "gamble", "and_xor">>
KindOf(s, i) == IF IsFan(s, i) THEN "fanout" ELSE IF IsGate(s, i) /\ \E g \in GateNames : Gate[g] = Nd(s, i).f THEN CHOOSE g \in GateNames : Gate[g] = Nd(s, i).f ELSE "none"

(* ---- levels: longest way from the inputs; cost 1 per gate ---- *)
Level(s) ==
  LET RECURSIVE go(_, _)
      go(j, v) == IF j > Len(s.nd) THEN v
                  ELSE go(j + 1, Append(v, IF s.nd[j].k # "gate" THEN 0 ELSE 1 + Longest({v[s.nd[j].ch[q] + 1] : q \in 1..Len(s.nd[j].ch)})))
  IN TLCEval(go(1, <<>>))
RECURSIVE Below(_, _)
Below(s, S) == LET M == S \cup UNION {{Nd(s, i).ch[q] : q \in 1..Len(Nd(s, i).ch)} : i \in S} IN IF M = S THEN S ELSE Below(s, M)
Alive(s) == Below(s, {s.po[p] : p \in 1..Len(s.po)})
Depth(s, lv) == Longest({lv[s.po[p] + 1] : p \in 1..Len(s.po)})
\* longest way from a node to an output
RECURSIVE Height(_, _)
Height(s, i) == LET F == {j \in Alive(s) : \E q \in 1..Len(Nd(s, j).ch) : Nd(s, j).ch[q] = i} IN IF F = {} THEN 0 ELSE 1 + Longest({Height(s, j) : j \in F})
\* nodes on a longest way
RECURSIVE Critical(_, _, _)
Critical(s, lv, S) == LET M == S \cup UNION {{c \in {Nd(s, i).ch[q] : q \in 1..Len(Nd(s, i).ch)} : lv[c + 1] + 1 = lv[i + 1]} : i \in S} IN IF M = S THEN S ELSE Critical(s, lv, M)
CriticalNodes(s, lv) == Critical(s, lv, {i \in {s.po[p] : p \in 1..Len(s.po)} : lv[i + 1] = Depth(s, lv)})
Edges(s) == {<<Nd(s, i).ch[q], i>> : <<i, q>> \in {<<j, r>> \in Ids(s) \X (1..3) : r <= Len(Nd(s, j).ch)}}
Readers(s, i) == {j \in Ids(s) : \E q \in 1..Len(Nd(s, j).ch) : Nd(s, j).ch[q] = i}
RECURSIVE PathsTo(_, _)
\* all ways from the inputs to a node, as sequences of edges, with multiplicity
PathsTo(s, i) == IF Nd(s, i).ch = <<>> THEN << <<>> >>
                 ELSE FoldLeft(LAMBDA a, q : IF Nd(s, Nd(s, i).ch[q]).k = "const" THEN a
                                             ELSE a \o (LET P == TLCEval(PathsTo(s, Nd(s, i).ch[q])) IN TLCEval([p \in 1..Len(P) |-> Append(P[p], <<Nd(s, i).ch[q], i>>)])),
                               <<>>, [q \in 1..Len(Nd(s, i).ch) |-> q])

(* ---- ranks: the nodes of every level in an order of one's own; s.rk: rank sequences ---- *)
\* s.rk: rank sequences; positions follow from them
Upd(s, l, q) == [s EXCEPT !.rk[l + 1] = q]
Spot(s, x) == CHOOSE p \in UNION {{<<l, k>> : k \in 1..Len(s.rk[l])} : l \in 1..Len(s.rk)} : s.rk[p[1]][p[2]] = x
\* levels of the nodes that feed outputs; all others are at level 0
ViewLevel(s) == LET lv == Level(s)  A == Alive(s) IN TLCEval([j \in 1..Len(s.nd) |-> IF (j - 1) \in A THEN lv[j] ELSE 0])
Fresh(s) == LET lv == ViewLevel(s)
                D == Depth(s, lv)
                I == [j \in 1..Len(s.nd) |-> j - 1] IN
            [l \in 1..(D + 1) |-> SelectSeq(I, LAMBDA i : Nd(s, i).k # "const" /\ lv[i + 1] = l - 1)]
RkLevel(s, i) == IF \E l \in 1..Len(s.rk) : \E k \in 1..Len(s.rk[l]) : s.rk[l][k] = i THEN Spot(s, i)[1] - 1 ELSE 0
Grow(q, n) == q \o [k \in 1..(IF n > Len(q) THEN n - Len(q) ELSE 0) |-> <<>>]
RankStep(s, e) ==
  CASE e.o \in {"init", "update"} -> [s EXCEPT !.rk = Fresh(s)]
    [] e.o = "swap" -> LET a == Spot(s, e.a)  b == Spot(s, e.b) IN [s EXCEPT !.rk[a[1]][a[2]] = e.b, !.rk[b[1]][b[2]] = e.a]
    [] e.o = "set" -> Upd(s, e.l, e.q)
    [] e.o = "setall" -> [s EXCEPT !.rk = e.q]
    [] e.o = "sort" -> Upd(s, e.l, IF e.up THEN SortSeq(s.rk[e.l + 1], LAMBDA x, y : x < y) ELSE SortSeq(s.rk[e.l + 1], LAMBDA x, y : x > y))
    [] e.o = "pis" -> Upd(s, 0, Inputs(s))
    [] e.o = "add" -> LET ch == Nd(s, e.n).ch
                          l == IF Nd(s, e.n).k = "pi" THEN 0 ELSE 1 + Longest({RkLevel(s, ch[q]) : q \in 1..Len(ch)})
                          g == Grow(s.rk, l + 1) IN [s EXCEPT !.rk = [g EXCEPT ![l + 1] = Append(@, e.n)]]
    [] OTHER -> s

(* ---- transformed networks, as documents ---- *)
DCh(d, j) == d.nd[j].ch
DUses(d, i) == FoldSeq(LAMBDA v, a : a + Cardinality({p \in 1..Len(v.ch) : v.ch[p][1] = i}), 0, d.nd) + Cardinality({p \in 1..Len(d.po) : d.po[p][1] = i})
DBuf(d, i) == i > d.n /\ d.nd[i - d.n].f = Gate.buf
\* no node drives too much
Substituted(d, degree, threshold) ==
  \A i \in 1..(d.n + Len(d.nd)) : IF DBuf(d, i) /\ DUses(d, i) > 1 THEN DUses(d, i) <= degree ELSE DUses(d, i) <= threshold
DLevel(d) ==
  LET RECURSIVE go(_, _)
      go(j, v) == IF j > Len(d.nd) THEN v ELSE go(j + 1, Append(v, 1 + Longest({v[DCh(d, j)[q][1] + 1] : q \in 1..Len(DCh(d, j))})))
  IN TLCEval(go(1, [i \in 1..(d.n + 1) |-> 0]))
Balanced(d, unify) ==
  \E lv \in {DLevel(d)} :
    /\ \A j \in 1..Len(d.nd) : \A q \in 1..Len(DCh(d, j)) : DCh(d, j)[q][1] = 0 \/ lv[DCh(d, j)[q][1] + 1] + 1 = lv[d.n + 1 + j]
    /\ unify => \A p, r \in 1..Len(d.po) : lv[d.po[p][1] + 1] = lv[d.po[r][1] + 1]
DAlive(d) ==
  LET RECURSIVE go(_)
      go(S) == LET M == S \cup UNION {{DCh(d, i - d.n)[q][1] : q \in 1..Len(DCh(d, i - d.n))} : i \in {x \in S : x > d.n}} IN IF M = S THEN S ELSE go(M)
  IN go({d.po[p][1] : p \in 1..Len(d.po)})
\* gates other than buffers that feed an output
RealGates(d) == Cardinality({i \in DAlive(d) : i > d.n /\ ~DBuf(d, i)})
\* the network with its buffers left out, as terms: node -> the tree it computes is too large, so: the sequence of <<function, sources>>
DTables(d) ==
  LET RECURSIVE go(_, _)
      go(k, v) == IF k > Len(d.nd) THEN v
                  ELSE go(k + 1, Append(v, Apply(d.n, d.nd[k].f, [q \in 1..Len(d.nd[k].ch) |-> Inv(d.n, v[1 + d.nd[k].ch[q][1]], d.nd[k].ch[q][2])])))
  IN TLCEval(go(1, <<ConstTT(d.n, 0)>> \o [k \in 1..d.n |-> InputTT(d.n, k)]))
=============================================================================
