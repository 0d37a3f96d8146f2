------------------------------ MODULE T_Helpers ------------------------------
EXTENDS Helpers, TraceCheck
HInit(hh) == CASE hh.k = "pascal" -> Row0
               [] hh.k = "queue"  -> [q |-> [x \in {} |-> 0], cmp |-> hh.init.cmp]
               [] hh.k = "csv"    -> <<>>
               [] OTHER -> <<>>
HStep(s, e) == CASE e.op = "row"  -> NextRow(s)
                 [] e.op = "push" -> [s EXCEPT !.q = PQPush(@, e.x)]
                 [] e.op = "pop"  -> [s EXCEPT !.q = PQPop(@, s.cmp)]
                 [] e.op = "line" -> Append(s, e.cells)
                 [] OTHER -> s
Distinct(q) == Cardinality(RangeOf(q)) = Len(q)
HGood(s, t, e) ==
  CASE e.op = "row" -> \* the coefficients C(n, 0) .. C(n, n+1) that the implementation reports for this row
          /\ Len(e.vals) = Len(s) + 1
          /\ \A k \in 1..Len(s) : Fits(s[k]) => e.vals[k] = Low(s[k])
          /\ e.vals[Len(s)+1] = W!Zero(8)
    [] e.op = "binomL" -> e.r = e.want           \* C(n, n-1) = n for n near 2^64
    [] e.op = "distr" -> IF e.k > e.n \/ e.k = 0 THEN e.r = <<>>
          ELSE /\ \A p \in 1..Len(e.r) : Len(e.r[p]) = e.k /\ Ascending(e.r[p])
               /\ Distinct(e.r)
               /\ {RangeOf(e.r[p]) : p \in 1..Len(e.r)} = SubsetsOf(e.n, e.k)
    [] e.op = "cart" -> LET idx == [d \in 1..Len(e.sets) |-> Len(e.sets[d])] IN
          /\ Len(e.r) = Product(idx)
          /\ \A p \in 1..Len(e.r) : Len(e.r[p]) = Len(e.sets) /\ \A d \in 1..Len(e.sets) : e.r[p][d] \in RangeOf(e.sets[d])
          /\ \A p \in 1..Len(e.r) : Count(e.r, e.r[p]) = Product([d \in 1..Len(e.sets) |-> Count(e.sets[d], e.r[p][d])])
    [] e.op = "abs" -> e.r = Abs(e.x)
    [] e.op = "absW" -> e.r = IF e.x[8] >= 128 THEN W!Sub(W!Zero(8), e.x) ELSE e.x
    [] e.op = "idW" -> e.r = e.x
    [] e.op = "round" -> e.r = RoundDiv(e.num, e.den)
    [] e.op = "chi" -> e.thrown = (Len(e.a) # Len(e.b)) /\ (~e.thrown => e.r = Dot(e.a, e.b))
    [] e.op = "two" -> e.r = FirstTwoOf(e.a, e.b)
    [] e.op = "tol" -> e.r = TolFind(e.keys, e.x)
    [] e.op = "push" -> e.size = PQSize(t.q) /\ ~e.empty /\ e.top = PQTop(t.q, t.cmp)
    [] e.op = "pop" -> e.size = PQSize(t.q) /\ e.x = PQTop(s.q, s.cmp) /\ e.empty = (DOMAIN t.q = {})
    [] e.op = "has" -> e.r = (e.x \in DOMAIN s.q) /\ e.found = e.r /\ e.cfound = e.r
    [] e.op = "all" -> \A x \in RangeOf(e.items) \cup DOMAIN s.q : x \in DOMAIN s.q /\ Count(e.items, x) = s.q[x]
    [] e.op = "line" -> e.text = Document(t)
    [] e.op = "arr" -> e.r = [p \in 1..e.n |-> e.x]
    [] e.op = "conv" -> e.r = e.a
    [] e.op = "hash" -> e.equal => e.heq
    [] e.op = "uhash" -> (\A x \in RangeOf(e.a) \cup RangeOf(e.b) : Count(e.a, x) = Count(e.b, x)) <=> e.heq
=============================================================================
