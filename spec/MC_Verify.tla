----------------------------- MODULE MC_Verify -----------------------------
(* all layouts on small grids that editing reaches: what freedom from design rule violations implies *)
EXTENDS Verify
CONSTANTS Scheme, MaxX, MaxY, MaxZ, Depth
VARIABLES s, d
G == [arr |-> "cart", X |-> MaxX, Y |-> MaxY, Z |-> MaxZ]
Init == s = GNew(NewStore(G, FALSE, Scheme, 4), "") /\ d = 0
\* sources anywhere: connections may be far, backward, or lead from nowhere
Sources(t) == {c \in Coords(G) : c # t /\ (c \in DOMAIN s.at \/ c = <<0,0,0>>)}
Next == /\ d < Depth /\ d' = d + 1
        /\ \E t \in Coords(G) :
             \/ t \notin DOMAIN s.at /\ s' = CreatePi(s, "", t)
             \/ t \notin DOMAIN s.at /\ \E c \in Sources(t) : s' = CreatePo(s, c, "", t) \/ s' = Create(s, Fn.buf, <<c>>, t)
             \/ t \notin DOMAIN s.at /\ \E a, b \in Sources(t) : a # b /\ s' = Create(s, Fn.and, <<a, b>>, t)
             \/ t \in DOMAIN s.at /\ s' = Clear(s, t)
Clean == Violations(s) = 0
\* every connection of a clean layout is effective, both ends know about it, and signals flow from the inputs
CleanFlow == (Clean /\ DOMAIN s.at # {}) =>
  /\ \A t \in DOMAIN s.at : Fanins(s, TRUE, s.at[t]) = Children(s, t)
  /\ \A l \in Links(s) : s.at[l[1]] \in Fanouts(s, TRUE, s.at[From(s, l)])
  /\ s.pis # <<>> /\ s.pos # <<>> /\ \A k \in 1..Len(Ios(s)) : Ios(s)[k] # 0 /\ Placed(s, Ios(s)[k])
  /\ {FlowOrder(s)[k] : k \in 1..Len(FlowOrder(s))} = DOMAIN s.at
\* signals reach a tile when its zone is clocked, so that skews are whole clock cycles
CleanTiming == Clean /\ DOMAIN s.at # {} =>
  \E v \in {Timing(s)} : /\ \A t \in DOMAIN s.at : v[t].arr % s.k.n = Clk(s.k, t) /\ v[t].len <= v[t].arr + 1
                         /\ \A t \in DOMAIN s.at : Skew(s, v, t) % s.k.n = 0
                         /\ Throughput(s) >= 1 /\ CriticalPath(s) >= 1
\* the counts agree with what they count: a violating connection is missing in the flow
Sound == /\ (FarLinks(s) \cup BackLinks(s) = {}) = (\A t \in DOMAIN s.at : Fanins(s, TRUE, s.at[t]) = Children(s, t))
         /\ LostLinks(s) \subseteq FarLinks(s)
\* without inverters and ORs, every output is the conjunction of the inputs it depends on
Conjunctions == (Clean /\ DOMAIN s.at # {}) => \E o \in {LayoutOutputs(s)} : \A p \in 1..Len(o) :
  LET D == {k \in 1..Len(s.pis) : N(s, s.pis[k]).t \in Feeding(s, {s.pos[p]})} IN
  \A r \in Rows(Len(s.pis)) : o[p][r] = (IF \A k \in D : Bit(r, k) = 1 THEN 1 ELSE 0)
=============================================================================
