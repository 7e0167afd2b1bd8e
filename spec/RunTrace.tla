------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Validates executions of the real uberjob.run, recorded as ndjson, one   *)
(* trace per line: {"p": problem instance, "t": [events]}.                 *)
(* The monitor is total: every event is consumed, the clauses of Run that  *)
(* it violates are printed, and the abstract state advances.               *)
(***************************************************************************)
EXTENDS Run, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

ToSet(q) == {q[i] : i \in 1..Len(q)}
Problem(t) == [t.p EXCEPT !.preds = [i \in 1..t.p.n |-> ToSet(t.p.preds[i])], !.out = ToSet(t.p.out)]
Statics == TLCEval([i \in 1..Len(Traces) |-> TLCEval(Static(Problem(Traces[i])))])

VARIABLES tid, l, s

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = InitState

Next == /\ l <= Len(Traces[tid].t)
        /\ LET e == Traces[tid].t[l]
               v == Clauses(Statics[tid], s, e)
           IN /\ IF v = {} THEN TRUE
                 ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ s' = Apply(Statics[tid], s, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
