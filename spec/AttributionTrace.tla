--------------------------- MODULE AttributionTrace ---------------------------
(* Validates the CallErrors of real runs against Attribution. *)
EXTENDS Attribution, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l

Init == tid \in 1..Len(Traces) /\ l = 1

Next == /\ l <= Len(Traces[tid].t)
        /\ LET v == Clauses(Traces[tid].p, Traces[tid].t[l])
           IN IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
