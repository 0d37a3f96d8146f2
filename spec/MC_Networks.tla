---------------------------- MODULE MC_Networks ----------------------------
(* all small networks, built in every order, with virtual inputs, output substitution and ranks *)
EXTENDS Networks
CONSTANTS MaxNodes, MaxPos, MaxOps, Gates
VARIABLES s, f, ops
\* f: the functions of the outputs before the last step that must not change them
New == NNew @@ [rk |-> <<>>]
Init == s = New /\ f = <<>> /\ ops = 0
Arity(g) == CASE Len(Gate[g]) = 2 -> 1 [] Len(Gate[g]) = 4 -> 2 [] OTHER -> 3
Build ==
  /\ s.rk = <<>> /\ UNCHANGED ops
  /\ \/ Len(s.nd) < MaxNodes /\ s' = AddPi(s) /\ f' = <<>>
     \/ Len(s.nd) < MaxNodes /\ \E k \in 1..Len(Inputs(s)) : Inputs(s)[k] \notin DOMAIN s.vr /\ s' = AddVirtual(s, Inputs(s)[k]) /\ f' = <<>>
     \/ \E g \in Gates : Len(s.nd) < MaxNodes /\ \E ch \in [1..Arity(g) -> Ids(s)] : s' = AddGate(s, g, ch) /\ f' = Functions(s)
     \/ \E i \in Ids(s) : Len(s.po) < MaxPos /\ s' = AddPo(s, i) /\ f' = Functions(s)
     \/ s' = SubstPos(s) /\ s' # s /\ f' = Functions(s)
Ranked == s.rk # <<>>
R(e) == s' = RankStep(s, e) /\ UNCHANGED f /\ ops' = ops + 1
OnRank(l) == {s.rk[l + 1][k] : k \in 1..Len(s.rk[l + 1])}
Rank ==
  /\ s.po # <<>> /\ ops < MaxOps
  /\ \/ R([o |-> "init"])
     \/ Ranked /\ \/ \E l \in 0..(Len(s.rk) - 1) : \E a, b \in OnRank(l) : a < b /\ R([o |-> "swap", a |-> a, b |-> b])
                  \/ \E l \in 0..(Len(s.rk) - 1), up \in BOOLEAN : R([o |-> "sort", l |-> l, up |-> up])
                  \/ OnRank(0) = {Inputs(s)[k] : k \in 1..Len(Inputs(s))} /\ R([o |-> "pis"])
Next == Build \/ Rank
Topological == \A i \in Ids(s) : \A q \in 1..Len(Nd(s, i).ch) : Nd(s, i).ch[q] < i
References == FoldSet(LAMBDA i, a : a + Uses(s, i), 0, Ids(s)) = FoldSeq(LAMBDA v, a : a + Len(v.ch), 0, s.nd) + Len(s.po)
Kept == \A k \in 1..Len(f) : f[k] = Functions(s)[k]
\* output substitution: every output has a buffer that nothing else uses, and doing it again changes nothing
Own == LET u == SubstPos(s) IN
  /\ \A p \in 1..Len(u.po) : IsBuf(u, u.po[p]) /\ Uses(u, u.po[p]) = 1
  /\ SubstPos(u) = u
\* a longest way exists, and every node on it lies on one of that length
Levels == LET lv == Level(s)  C == CriticalNodes(s, lv) IN
  s.po # <<>> => /\ C # {}
                 /\ \A i \in C : lv[i + 1] + Height(s, i) = Depth(s, lv) \/ i \in {0, 1}
                 /\ \A i \in Alive(s) : lv[i + 1] + Height(s, i) <= Depth(s, lv)
\* the ways to a node are chains of connections from inputs; their number is the sum over the fan-ins
Ways == \A i \in Ids(s) : LET P == PathsTo(s, i) IN
  /\ \A p \in 1..Len(P) : /\ \A k \in 1..Len(P[p]) : P[p][k] \in Edges(s) /\ (k > 1 => P[p][k - 1][2] = P[p][k][1])
                          /\ P[p] # <<>> => P[p][Len(P[p])][2] = i /\ Nd(s, P[p][1][1]).ch = <<>> /\ P[p][1][1] > 1
                          /\ Len(P[p]) <= Level(s)[i + 1]
\* replacing virtual inputs by what they stand for keeps the functions
Devirt(u) == [u EXCEPT !.nd = [j \in 1..Len(u.nd) |-> [u.nd[j] EXCEPT !.ch = [q \in 1..Len(@) |-> Stand(u, @[q])]]], !.po = [p \in 1..Len(@) |-> Stand(u, @[p])]]
Virtual == LET u == Devirt(s) IN /\ Functions(u) = Functions(s) /\ \A v \in DOMAIN s.vr : Uses(u, v) = 0
\* ranks hold every node once, at its level
Ranks == Ranked => LET lv == ViewLevel(s) IN
  /\ \A l \in 1..Len(s.rk) : \A k \in 1..Len(s.rk[l]) : lv[s.rk[l][k] + 1] = l - 1
  /\ \A i \in Ids(s) : i > 1 => Cardinality({p \in UNION {{<<l, k>> : k \in 1..Len(s.rk[l])} : l \in 1..Len(s.rk)} : s.rk[p[1]][p[2]] = i}) = 1
\* the named comparison functions agree
Comparisons == Gate.le = [r \in 1..4 |-> 1 - Gate.gt[r]] /\ Gate.ge = [r \in 1..4 |-> 1 - Gate.lt[r]] /\ Gate.lt = [r \in 1..4 |-> Gate.gt[<<1, 3, 2, 4>>[r]]]
=============================================================================
