------------------------------- MODULE T_Sidb -------------------------------
(* Trace validation for charge distribution surfaces and simulation engines. *)
EXTENDS Sidb, TraceCheck, TLC

Good2E(S, c, e) == Within(2 * e, Energy2(S, c), 4 * T)
Judged(S, c, v) == (Clear(S, c) => v) /\ (v => Possible(S, c))
Count(c, x) == Cardinality({k \in 1..Len(c) : c[k] = x})

(***************************** surfaces ***********************************)
Start(q) == [S |-> q.S, c |-> q.c, b |-> q.b, dep |-> 0, syn |-> TRUE, mok |-> TRUE, fp |-> TRUE, fe |-> TRUE, fv |-> TRUE]
Stale(s) == [s EXCEPT !.fp = FALSE, !.fe = FALSE, !.fv = FALSE]
Updated(s, e) == [s EXCEPT !.fp = TRUE, !.fe = e.energy, !.fv = TRUE]
Ix(s) == Index(s.c, s.b, s.dep)
Mx(s) == MaxIndex(s.S.n, s.b, s.dep)
DepNow(s, e) == IF s.dep = 0 THEN 0 ELSE e.o.c[s.dep]
Step(s, e) ==
  CASE e.op = "set" -> Stale([s EXCEPT !.c[e.i] = e.cs, !.syn = e.upd])
    [] e.op = "setall" -> Stale([s EXCEPT !.c = [k \in 1..s.S.n |-> e.cs], !.syn = e.upd])
    [] e.op = "none" -> IF e.upd THEN [s EXCEPT !.syn = TRUE] ELSE s     \* a cell that does not exist
    [] e.op = "toindex" -> [s EXCEPT !.syn = TRUE]
    [] e.op = "update" -> Updated([s EXCEPT !.c = IF e.var /\ s.dep > 0 THEN [@ EXCEPT ![s.dep] = DepNow(s, e)] ELSE @,
                                            !.syn = s.syn], e)
    [] e.op = "inc" -> IF Ix(s) >= Mx(s) THEN s ELSE Updated([s EXCEPT !.c = FromIndex(s.S.n, Ix(s) + 1, s.b, s.dep, DepNow(s, e))], e)
    [] e.op = "index" -> Stale([s EXCEPT !.c = FromIndex(s.S.n, e.ix, s.b, s.dep, DepNow(s, e)), !.syn = TRUE])
    [] e.op = "dep" -> [s EXCEPT !.dep = e.i, !.syn = FALSE, !.mok = TRUE]
    [] e.op = "base" -> [s EXCEPT !.b = e.b, !.syn = s.syn /\ e.b = s.b, !.mok = TRUE]
    [] e.op = "ext" -> [s EXCEPT !.S.ext = [k \in 1..s.S.n |-> @[k] + e.x[k]], !.S.d = [k \in 1..Len(@) |-> [@[k] EXCEPT !.e = @ + e.y[k]]], !.fe = FALSE, !.fv = FALSE]
    [] e.op = "reset" -> [s EXCEPT !.S.ext = [k \in 1..s.S.n |-> 0], !.S.d = [k \in 1..Len(@) |-> [@[k] EXCEPT !.e = 0]], !.fe = FALSE, !.fv = FALSE]
    [] e.op = "defect" -> [s EXCEPT !.S.d = e.d, !.fe = FALSE, !.fv = FALSE]
    [] e.op = "params" -> [s EXCEPT !.S.V = e.V, !.S.lo = e.lo, !.S.hi = e.hi, !.S.d = e.d, !.b = e.b, !.syn = s.syn /\ e.b = s.b,
                                    !.mok = (s.dep = 0), !.fp = TRUE, !.fe = TRUE, !.fv = TRUE]
    [] e.op = "place" -> Start([S |-> e.S, c |-> AllNegative(e.S), b |-> s.b])
    [] OTHER -> s
Allowed(s, t, e) ==
  CASE e.op = "inc" -> (s.dep > 0 /\ Ix(s) < Mx(s)) => IF e.var THEN Follows(s.S, t.c, s.dep, s.b, t.c[s.dep]) ELSE t.c[s.dep] = s.c[s.dep]
    [] e.op = "update" -> (e.var /\ s.dep > 0) => Follows(s.S, t.c, s.dep, s.b, t.c[s.dep])
    [] e.op = "index" -> s.dep > 0 => t.c[s.dep] \in {s.c[s.dep], -1}
    [] OTHER -> TRUE
Low(s, t) == {k \in 1..s.S.n : s.S.lo - Local(s.S, s.c, k) < -Eps + t}
Seen(s, o) ==
  /\ o.c = s.c /\ o.b = s.b /\ o.n = s.S.n
  /\ o.cnt = <<Count(s.c, -1), Count(s.c, 0), Count(s.c, 1)>> /\ o.has = <<o.cnt[1] > 0, o.cnt[2] > 0, o.cnt[3] > 0>>
  /\ s.syn => o.ix = Ix(s)
  /\ s.mok => o.mx = Mx(s)
  /\ \A k \in 1..s.S.n : /\ Within(o.ext[k], s.S.ext[k], T) /\ Within(o.def[k], FromDefects(s.S, k), T)
                         /\ \A j \in 1..s.S.n : Within(o.V[k][j], s.S.V[k][j], 2)
  /\ s.fp => \A k \in 1..s.S.n : Within(o.int[k], Internal(s.S, s.c, k), T) /\ Within(o.loc[k], Local(s.S, s.c, k), T)
  /\ s.fe => Good2E(s.S, s.c, o.E)
  /\ s.fv => Judged(s.S, s.c, o.v)
  /\ o.nd = Len(s.S.d)
  /\ s.fp => LET ng == {o.neg[k] : k \in 1..Len(o.neg)} IN ng \subseteq Low(s, T) /\ Low(s, -T) \subseteq ng

(***************************** engines ************************************)
Found(e) == {e.got[k].c : k \in 1..Len(e.got)}
EachRight(S, e) == \A k \in 1..Len(e.got) : LET g == e.got[k] IN
   /\ Possible(S, g.c) /\ g.v /\ Good2E(S, g.c, g.E) /\ g.b \in {2, 3} /\ g.ix = Index(g.c, g.b, 0)
   /\ \A q \in 1..S.n : Within(g.loc[q], Local(S, g.c, q), T)
\* QuickExact derives the charge of one SiDB from the others, and hence reports one configuration where that SiDB is indifferent.
Firm(S, c) == \A k \in 1..S.n : c[k] # 0 \/ (S.lo - Local(S, c, k) > Eps + T /\ S.hi - Local(S, c, k) < -(Eps + T))
Due(S, e) == IF e.by = "exgs" THEN ValidSet(S, e.b) ELSE {c \in ValidSet(S, e.b) : Firm(S, c)}
Complete(S, e) == Cardinality(Found(e)) = Len(e.got) /\ Due(S, e) \subseteq Found(e)
EngineGood(S, e) ==
  CASE e.op = "engine" -> EachRight(S, e) /\ Complete(S, e) /\ Found(e) \subseteq Configs(S, e.b)
    [] e.op = "quicksim" -> EachRight(S, e) /\ Found(e) \subseteq Configs(S, 2) /\ (e.some <=> Len(e.got) > 0)
    [] OTHER -> TRUE


(************************** derived quantities ****************************)
Same(A, B) == Ran(A) = Ran(B) /\ Cardinality(Ran(A)) = Len(A) /\ Cardinality(Ran(B)) = Len(B)
HasGrounds(S, A, B) == A # <<>> /\ Grounds(S, B) = Grounds(S, A)
Double(d) == [k \in 1..Len(d) |-> <<2 * d[k][1], d[k][2]>>]
Kinds == {"on", "no", "op", "po"}
\* the distance at which the screened potential has fallen to v
DistanceRight(t) == t.v >= 0 => t.at <= t.v + 2 /\ t.before >= t.v - 2
StabilityGood(S, e) == \A k \in 1..Len(e.got) : LET g == e.got[k] IN
  /\ k > 1 => e.got[k - 1].E <= g.E + T
  /\ \E c \in PossibleSet(S, 3) : Good2E(S, c, g.E) /\ StabilityRight(S, c, g.t)
  /\ \A q \in Kinds : DistanceRight(g.t[q])
  /\ \E q \in Kinds : g.crit = g.t[q].c /\ g.t[q].v >= 0 /\ \A q2 \in Kinds : g.t[q2].v = -1 \/ g.t[q].v <= g.t[q2].v + T
AllStable(S, e) == \A c \in ValidSet(S, 3) : Firm(S, c) => \E k \in 1..Len(e.got) : Good2E(S, c, e.got[k].E)
DerivedGood(S, e) ==
  CASE e.op = "ground" -> Grounds(S, e.A) \subseteq Ran(e.got) /\ Ran(e.got) \subseteq MaybeGrounds(S, e.A) /\ Cardinality(Ran(e.got)) = Len(e.got)
    [] e.op = "nothing" -> e.infinite /\ e.end
    [] e.op = "least" -> Good2E(S, e.A[e.k], e.E) /\ \A c \in Ran(e.A) : Energy2(S, e.A[e.k]) <= Energy2(S, c) + 4 * T
    [] e.op = "isground" -> (Decided(S, e.A) /\ Decided(S, e.B)) => e.r = HasGrounds(S, e.A, e.B)
    [] e.op = "equal" -> e.r = Same(e.A, e.B)
    [] e.op = "spectrum" -> /\ Spectrum(S, e.B, Double(e.d)) /\ e.nth = e.d /\ e.size = Len(e.d) /\ e.empty = (e.d = <<>>) /\ ~e.beyond /\ ~e.far
                            /\ e.deg = [k \in 1..Len(e.d) |-> e.d[k][2]]
                            /\ e.d # <<>> => e.range = <<e.d[1][1], e.d[Len(e.d)][1]>>
    [] e.op = "positive" -> (MayBePositive(S, -T) # {} => e.r) /\ (e.r => MayBePositive(S, T) # {})
    [] e.op = "tts" -> (Decided(S, e.A) /\ \A q \in 1..Len(e.Bs) : Decided(S, e.Bs[q])) =>
                       LET m == Len(e.Bs) good == Cardinality({q \in 1..m : HasGrounds(S, e.A, e.Bs[q])}) IN
                       /\ Within(e.acc * m, good * 10000, m) /\ Within(e.mean, e.ms, 1) /\ e.exact = 125
                       /\ e.inf = (good = 0)
                       /\ IF good = 0 THEN e.tts = -1 ELSE Within(e.tts, IF good = m THEN e.ms ELSE e.k * e.ms, 2)
    [] e.op = "stability" -> StabilityGood(S, e) /\ AllStable(S, e)
    [] OTHER -> FALSE
\* At a temperature at which one step of energy halves the Boltzmann factor: s lists states as pairs of the energy in steps and a weight.
Top == 8
Weight(s, P(_, _)) == Total([k \in 1..Len(s) |-> IF P(s[k][1], s[k][2]) THEN Power(2, Top - s[k][1]) ELSE 0])
Weighted(s, P(_)) == Total([k \in 1..Len(s) |-> IF P(s[k][1]) THEN s[k][2] * Power(2, Top - s[k][1]) ELSE 0])
BoltzmannGood(e) ==
  CASE e.op = "excited" -> \E Z \in {Weighted(e.s, LAMBDA m : TRUE)} : Within(e.p * Z, 10000 * Weighted(e.s, LAMBDA m : m > 0), Z)
    [] e.op = "erroneous" -> \E Z \in {Weight(e.s, LAMBDA m, g : TRUE)} : Within(e.p * Z, 10000 * Weight(e.s, LAMBDA m, g : g = 1), Z)
    [] e.op = "factor" -> Within(e.f * Power(2, e.m), 1000000, Power(2, e.m))
    [] OTHER -> e.p = 0 /\ e.q = 0

TheInit(hh) == CASE hh.k = "surface" -> Start(hh.init) [] hh.k = "boltzmann" -> [S |-> <<>>, k |-> hh.k] [] OTHER -> [S |-> hh.init.S, k |-> hh.k]
Steps(s) == "c" \in DOMAIN s
TheStep(s, e) == IF Steps(s) THEN TLCEval(Step(s, e)) ELSE s
TheGood(s, t, e) == IF Steps(s) THEN Allowed(s, t, e) /\ Seen(t, e.o)
                    ELSE CASE s.k = "engine" -> EngineGood(s.S, e) [] s.k = "derived" -> DerivedGood(s.S, e) [] OTHER -> BoltzmannGood(e)
=============================================================================
