------------------------------ MODULE EvalTrace ------------------------------
(* Validates recorded executions of symbolic programs against Eval. *)
EXTENDS Eval, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Statics == TLCEval([i \in 1..Len(Traces) |-> TLCEval([p |-> Traces[i].p, V |-> Eval(Traces[i].p)])])

VARIABLES tid, l

Init == tid \in 1..Len(Traces) /\ l = 1

Next == /\ l <= Len(Traces[tid].t)
        /\ LET v == Clauses(Statics[tid], Traces[tid].t[l])
           IN IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
