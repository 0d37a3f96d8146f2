----------------------------- MODULE MC_Design -----------------------------
(* every way of drawing a network on a small clocked grid, tile by tile: what is finished without open ends realizes it *)
EXTENDS Design
CONSTANTS Scheme, MaxX, MaxY, MaxZ, Which
VARIABLES s, m                 \* the layout so far, and the node of the network that each tile carries
Nets == [and  |-> [n |-> 2, nd |-> <<[f |-> Fn.and, ch |-> <<<<1, 0>>, <<2, 0>>>>]>>, po |-> <<<<3, 0>>>>],
         lt   |-> [n |-> 2, nd |-> <<[f |-> Fn.lt, ch |-> <<<<2, 0>>, <<1, 0>>>>]>>, po |-> <<<<3, 0>>>>],
         fan  |-> [n |-> 1, nd |-> <<[f |-> Fn.inv, ch |-> <<<<1, 0>>>>]>>, po |-> <<<<1, 0>>, <<2, 0>>>>],
         swap |-> [n |-> 2, nd |-> <<>>, po |-> <<<<2, 0>>, <<1, 0>>>>]]
Net == Nets[Which]
G == [arr |-> "cart", X |-> MaxX, Y |-> MaxY, Z |-> MaxZ]
Init == s = GNew(NewStore(G, FALSE, Scheme, 4), "") /\ m = <<>>
Free(t) == t \notin DOMAIN s.at /\ (t[3] = 0 \/ (<<t[1], t[2], 0>> \in DOMAIN s.at /\ IsWire(s, s.at[<<t[1], t[2], 0>>]) /\ ~IsPi(s, s.at[<<t[1], t[2], 0>>]) /\ <<t[1], t[2], 0>> \notin PoSet(s)))
Degree(c) == Cardinality({t \in DOMAIN s.at : \E q \in 1..Len(Children(s, t)) : Children(s, t)[q] = c})
\* where node k's signal can be taken up from: at most two ways lead on from a wire, one from anything else
Sources(t, k) == {c \in DOMAIN s.at : c \notin PoSet(s) /\ m[c] = k /\ Incoming(s.k, t, c) /\ AdjElevation(G, t, c)
                    /\ Degree(c) < (IF IsWire(s, s.at[c]) /\ ~IsPi(s, s.at[c]) /\ c[3] = 0 THEN 2 ELSE 1)}
Drawn(k) == \E t \in DOMAIN s.at : m[t] = k /\ (k <= Net.n \/ ~IsWire(s, s.at[t]))
Next ==
  \E t \in Coords(G) : Free(t) /\
    \/ t[3] = 0 /\ Len(s.pis) < Net.n /\ s' = CreatePi(s, "", t) /\ m' = Put(m, t, Len(s.pis) + 1)
    \/ \E k \in 1..(Net.n + Len(Net.nd)) : \E c \in Sources(t, k) : s' = Create(s, Fn.buf, <<c>>, t) /\ m' = Put(m, t, k)
    \/ t[3] = 0 /\ \E k \in 1..Len(Net.nd) : ~Drawn(Net.n + k) /\ Len(Net.nd[k].ch) = 1 /\ \E c \in Sources(t, Net.nd[k].ch[1][1]) :
         s' = Create(s, Net.nd[k].f, <<c>>, t) /\ m' = Put(m, t, Net.n + k)
    \/ t[3] = 0 /\ \E k \in 1..Len(Net.nd) : ~Drawn(Net.n + k) /\ Len(Net.nd[k].ch) = 2 /\ \E c \in Sources(t, Net.nd[k].ch[1][1]), b \in Sources(t, Net.nd[k].ch[2][1]) :
         b # c /\ s' = Create(s, Net.nd[k].f, <<c, b>>, t) /\ m' = Put(m, t, Net.n + k)
    \/ t[3] = 0 /\ Len(s.pos) < Len(Net.po) /\ \E c \in Sources(t, Net.po[Len(s.pos) + 1][1]) :
         s' = CreatePo(s, c, "", t) /\ m' = Put(m, t, Net.po[Len(s.pos) + 1][1])
Finished == Len(s.pos) = Len(Net.po) /\ Len(s.pis) = Net.n
\* every tile computes what it carries, provided that all inputs are there
Carries == Len(s.pis) = Net.n => \E v \in {LayoutTables(s)}, w \in {DTables(Net)} : \A t \in DOMAIN s.at : v[t] = w[1 + m[t]]
RealizedWhenFinished == (Finished /\ Open(s) = {}) => Legal(s) /\ LegalFor(s, Net) /\ Realizes(s, Net) /\ AllPlaced(s) /\ Bounded(s)
\* nothing but open ends can be wrong in the course of drawing
OnlyOpen == \A r \in Serious \ {"connected", "hasio"} : Breaches(s, r) = 0
\* a layout needs at least a tile per input, gate, and output
AtLeast == (Finished /\ Open(s) = {}) => Cardinality({<<t[1], t[2]>> : t \in DOMAIN s.at}) >= Net.n + Len(Net.nd) + Len(Net.po)
Counts == Stats(s)[3] + Stats(s)[4] = Cardinality(DOMAIN s.at) /\ 2 * Crossed(s) <= Wires(s)
=============================================================================
