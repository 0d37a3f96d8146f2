----------------------------- MODULE GateLayout -----------------------------
(***************************************************************************)
(* Gate-level layouts: a clocked layout whose tiles host nodes.  A node    *)
(* has a function, an ordered list of incoming signals (tiles), a name,    *)
(* and is either placed on exactly one tile or not placed.  Everything     *)
(* else - wire, gate and crossing counts, fan-in and fan-out relations,    *)
(* directional queries - is derived from that.                             *)
(* A gate-level store is                                                   *)
(*   [k: clocking store, nd: nodes (numbered from 2), at: tile -> node,    *)
(*    pis: nodes in creation order, pos: tiles of the outputs, nm: name]   *)
(***************************************************************************)
EXTENDS Clocking

\* truth tables list the output for input patterns 0, 1, 2, ..., the first input being the least significant
Fn == [buf |-> <<0,1>>, inv |-> <<1,0>>, and |-> <<0,0,0,1>>, nand |-> <<1,1,1,0>>, or |-> <<0,1,1,1>>, nor |-> <<1,0,0,0>>,
       lt |-> <<0,1,0,0>>, ge |-> <<1,0,1,1>>, gt |-> <<0,0,1,0>>, le |-> <<1,1,0,1>>, xor |-> <<0,1,1,0>>, xnor |-> <<1,0,0,1>>,
       maj |-> <<0,0,0,1,0,1,1,1>>]
Kinds == DOMAIN Fn

GNew(k, nm) == [k |-> k, nd |-> <<>>, at |-> <<>>, pis |-> <<>>, pos |-> <<>>, nm |-> nm]
First == 2                            \* nodes 0 and 1 are the constants
Top(s) == Len(s.nd) + First - 1       \* number of the youngest node
N(s, n) == s.nd[n - First + 1]
Nodes(s) == First..Top(s)
Node(fn, ch, nm) == [fn |-> fn, ch |-> ch, t |-> <<>>, dead |-> FALSE, nm |-> nm, val |-> 0, vis |-> 0]
IsWire(s, n) == n >= First /\ N(s, n).fn = Fn.buf
Placed(s, n) == N(s, n).t # <<>>
NodeAt(s, t) == IF t \in DOMAIN s.at THEN s.at[t] ELSE 0
DropFirst(q, v) == IF \E k \in 1..Len(q) : q[k] = v
                   THEN LET p == CHOOSE k \in 1..Len(q) : q[k] = v /\ \A j \in 1..(k-1) : q[j] # v
                        IN SubSeq(q, 1, p-1) \o SubSeq(q, p+1, Len(q))
                   ELSE q

(* ---- transitions ---- *)
\* an emptied tile loses its node, which is dead from then on, and its output mark
Clear(s, t) == IF t \notin DOMAIN s.at THEN s
               ELSE LET n == s.at[t] IN
                 [s EXCEPT !.nd[n - First + 1].t = <<>>, !.nd[n - First + 1].dead = TRUE, !.at = Drop(s.at, t), !.pos = DropFirst(s.pos, t)]
Put1(s, n, t) == LET c == Clear(s, t) IN [c EXCEPT !.at = Put(c.at, t, n), !.nd[n - First + 1].t = t, !.nd[n - First + 1].dead = FALSE]
Add(s, fn, ch, nm, t) == LET a == [s EXCEPT !.nd = Append(s.nd, Node(fn, ch, nm))] IN Put1(a, Top(a), t)
DefName(p, k, nm) == IF nm = "" THEN p \o ToString(k) ELSE nm
CreatePi(s, nm, t) == LET a == Add(s, Fn.buf, <<>>, DefName("pi", Len(s.pis) + 1, nm), t) IN [a EXCEPT !.pis = Append(s.pis, Top(a))]
CreatePo(s, c, nm, t) == LET a == Add(s, Fn.buf, <<c>>, nm, t)
                         IN [a EXCEPT !.pos = Append(a.pos, t), !.nd[Len(a.nd)].nm = DefName("po", Len(a.pos) + 1, nm)]
Create(s, fn, ch, t) == Add(s, fn, ch, "", t)
\* a moved node leaves its tile, takes its output mark along, and gets new incoming signals
Move(s, n, t, ch) ==
  LET old == N(s, n).t
      po  == \E k \in 1..Len(s.pos) : s.pos[k] = old
      a   == IF t = old THEN s
             ELSE LET b == Clear(s, t)
                      b2 == [b EXCEPT !.pos = [k \in 1..Len(b.pos) |-> IF old # <<>> /\ b.pos[k] = old THEN t ELSE b.pos[k]]]
                      b3 == IF old = <<>> THEN b2 ELSE [b2 EXCEPT !.at = Drop(b2.at, old)]
                  IN [b3 EXCEPT !.at = Put(b3.at, t, n), !.nd[n - First + 1].t = t, !.nd[n - First + 1].dead = FALSE]
  IN [a EXCEPT !.nd[n - First + 1].ch = ch]
Connect(s, c, n) == [s EXCEPT !.nd[n - First + 1].ch = Append(@, c)]
SetName(s, n, nm) == [s EXCEPT !.nd[n - First + 1].nm = nm]
SetVal(s, n, v) == [s EXCEPT !.nd[n - First + 1].val = v]
SetVis(s, n, v) == [s EXCEPT !.nd[n - First + 1].vis = v]

(* ---- derived quantities ---- *)
NumWires(s) == Cardinality({n \in Nodes(s) : Placed(s, n) /\ IsWire(s, n)})
NumGates(s) == Cardinality({n \in Nodes(s) : Placed(s, n) /\ ~IsWire(s, n)})
\* wires that cross other nodes: both layers of a column are occupied, at least one of them by a wire
NumCrossings(s) == Cardinality({t \in DOMAIN s.at : t[3] = 0 /\ <<t[1], t[2], 1>> \in DOMAIN s.at
                                   /\ (IsWire(s, s.at[t]) \/ IsWire(s, s.at[<<t[1], t[2], 1>>]))})
IsPi(s, n) == \E k \in 1..Len(s.pis) : s.pis[k] = n
IsPo(s, n) == n >= First /\ Placed(s, n) /\ \E k \in 1..Len(s.pos) : s.pos[k] = N(s, n).t
\* incoming signals are effective if they come from an occupied tile nearby (and its clock zone precedes)
Effective(s, clk, t, c) == /\ Len(c) = 3 /\ c \in DOMAIN s.at /\ t # <<>> /\ AdjElevation(s.k.g, t, c)
                           /\ (clk => Incoming(s.k, t, c))
Fanins(s, clk, n) == SelectSeq(N(s, n).ch, LAMBDA c : Effective(s, clk, N(s, n).t, c))
Fanouts(s, clk, n) == IF ~Placed(s, n) THEN {}
                      ELSE {m \in Nodes(s) : Placed(s, m) /\ \E k \in 1..Len(N(s, m).ch) : N(s, m).ch[k] = N(s, n).t
                                                          /\ Effective(s, clk, N(s, m).t, N(s, m).ch[k])}
Dirs8 == {"n", "ne", "e", "se", "s", "sw", "w", "nw"}
Column(t) == <<t[1], t[2]>>
\* directions from which data comes / to which data goes; the layer of the neighbour does not matter
InDirs(s, clk, t)  == {d \in Dirs8 : \E k \in 1..Len(Fanins(s, clk, s.at[t])) : Column(Fanins(s, clk, s.at[t])[k]) = Column(Go(s.k.g, t, d))}
OutDirs(s, clk, t) == {d \in Dirs8 : \E m \in Fanouts(s, clk, s.at[t]) : Column(N(s, m).t) = Column(Go(s.k.g, t, d))}
Opposite(s, clk, t) == \E p \in OppositePairs(s.k.g, t) : \E a, b \in p : a # b
   /\ (\E k \in 1..Len(Fanins(s, clk, s.at[t])) : Column(Fanins(s, clk, s.at[t])[k]) = Column(a))
   /\ (\E m \in Fanouts(s, clk, s.at[t]) : Column(N(s, m).t) = Column(b))
\* value of a node on input patterns (least significant first)
Pattern(vs) == LET RECURSIVE p(_) p(k) == IF k > Len(vs) THEN 0 ELSE vs[k] * 2^(k-1) + p(k+1) IN p(1)
Eval(s, n, vs) == N(s, n).fn[1 + Pattern(vs)]
=============================================================================
