----------------------------- MODULE MC_Helpers -----------------------------
(* Priority queue over three priorities and both orders: every push/pop      *)
(* history up to D; Pascal's triangle against subset counting.               *)
EXTENDS Helpers
CONSTANTS D, NB
VARIABLES b, cmp, popped, n
Init == b = [x \in {} |-> 0] /\ cmp \in {"less", "greater"} /\ popped = <<>> /\ n = 0
Push == n < D /\ \E x \in 1..3 : b' = PQPush(b, x) /\ n' = n + 1 /\ popped' = <<>> /\ UNCHANGED cmp
Pop  == DOMAIN b # {} /\ popped' = Append(popped, PQTop(b, cmp)) /\ b' = PQPop(b, cmp) /\ UNCHANGED <<cmp, n>>
Next == Push \/ Pop
Monotone == \A p \in 1..(Len(popped)-1) : IF cmp = "less" THEN popped[p] >= popped[p+1] ELSE popped[p] <= popped[p+1]
Bounded  == PQSize(b) <= n /\ \A x \in DOMAIN b : b[x] > 0
RECURSIVE RowN(_)
RowN(k) == IF k = 0 THEN Row0 ELSE NextRow(RowN(k-1))
ASSUME \A m \in 0..NB : \A k \in 0..m : W!ToInt(RowN(m)[k+1]) = Cardinality(SubsetsOf(m, k))
=============================================================================
