------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Physical design.  A layout realizes a logic network if it obeys the     *)
(* design rules, computes the network's functions, and carries its names.  *)
(* Nothing is said about how a layout is found.                            *)
(***************************************************************************)
EXTENDS Networks

Size(s) == <<s.k.g.X + 1, s.k.g.Y + 1>>
Wires(s) == Cardinality({n \in Nodes(s) : ~N(s, n).dead /\ IsWire(s, n)})
GateCount(s) == Cardinality({n \in Nodes(s) : ~N(s, n).dead /\ ~IsWire(s, n)})
Crossed(s) == Cardinality({t \in DOMAIN s.at : t[3] = 0 /\ <<t[1], t[2], 1>> \in DOMAIN s.at /\ IsWire(s, s.at[t]) /\ IsWire(s, s.at[<<t[1], t[2], 1>>])})
\* an input that the network never reads is placed, but feeds nothing
Unread(net) == (1..net.n) \ DAlive(net)
Legal(s) == \A r \in Serious : Breaches(s, r) = 0
LegalFor(s, net) == /\ \A r \in Serious \ {"connected"} : Breaches(s, r) = 0
                    /\ \A t \in Open(s) : \E p \in Unread(net) : s.at[t] = s.pis[p]
\* every tile of the layout is in its bounds, pairs of inputs and outputs are where they can be reached from outside
Bounded(s) == \A t \in DOMAIN s.at : t[1] <= s.k.g.X /\ t[2] <= s.k.g.Y /\ t[3] <= s.k.g.Z
AllPlaced(s) == \A n \in Nodes(s) : ~N(s, n).dead => Placed(s, n)
IosAtBorder(s) == InnerIos(s) = 0
Realizes(s, net) == /\ Len(s.pis) = net.n /\ Len(s.pos) = Len(net.po)
                    /\ \E A \in {NetOutputs(net)}, B \in {LayoutOutputs(s)} : A = B
\* in what is counted, virtual inputs and the like have no part
Stats(s) == <<s.k.g.X + 1, s.k.g.Y + 1, GateCount(s), Wires(s), Crossed(s)>>

PiName(s, p) == N(s, s.pis[p]).nm
PoName(s, p) == N(s, s.at[s.pos[p]]).nm
\* names of the network, its inputs, and its outputs
Named(s, names) ==
  /\ s.nm = names.net
  /\ \A p \in 1..Len(names.in) : names.in[p] # "" => PiName(s, p) = names.in[p]
  /\ \A p \in 1..Len(names.out) : names.out[p] # "" => PoName(s, p) = names.out[p]
=============================================================================
