----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic trace validation.  A trace file holds histories; each history   *)
(* is a sequence of events recorded from (or replayed into) the real code. *)
(* The specification supplies the abstract initial state of a history, the *)
(* abstract transition taken for an event, and the predicate relating the  *)
(* abstract pre/post state to what the implementation reported.            *)
(* One TLC state per consumed event; histories are independent behaviours, *)
(* so several workers validate them in parallel.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils
CONSTANTS InitSt(_),      \* history            -> abstract initial state
          StepSt(_, _),   \* state, event       -> abstract next state
          GoodEv(_, _, _) \* state, next, event -> does the observation agree?

VARIABLES h, i, st, ok
tvars == <<h, i, st, ok>>

TheTrace == ndJsonDeserialize(IOEnv.VP_TRACE)

TInit == /\ h \in 1..Len(TheTrace)
         /\ i = 0
         /\ st = InitSt(TheTrace[h])
         /\ ok = TRUE

TNext == /\ ok
         /\ i < Len(TheTrace[h].ev)
         /\ h' = h
         /\ i' = i + 1
         /\ st' = StepSt(st, TheTrace[h].ev[i+1])
         /\ ok' = GoodEv(st, st', TheTrace[h].ev[i+1])

TraceOk == ok
=============================================================================
