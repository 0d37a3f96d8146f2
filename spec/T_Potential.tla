---------------------------- MODULE T_Potential ----------------------------
EXTENDS Potential, TraceCheck
PtInit(hh) == [last |-> <<>>]
\* st.last: the previous request and answer of this history, <<s, p, q, n>>
PtStep(s0, e) == [last |-> <<e.s, e.p, e.q, e.n>>]
PtGood(s0, s1, e) ==
  /\ e.ongrid
  /\ Answer(Grid(e.s, e.p), e.q, e.n)
  /\ (s0.last # <<>> /\ s0.last[1] = e.s /\ s0.last[2] = e.p) =>
       (IF e.q >= s0.last[3] THEN e.n <= s0.last[4] ELSE e.n >= s0.last[4])
=============================================================================
