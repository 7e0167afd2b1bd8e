----------------------------- MODULE DisplayTrace -----------------------------
(* Validates recorded displays against Display. *)
EXTENDS Display, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ps == TLCEval([i \in 1..Len(Traces) |-> Traces[i].p])

VARIABLES tid, l, s

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Start(Ps[tid])

Next == /\ l <= Len(Traces[tid].t)
        /\ LET e == Traces[tid].t[l]
               v == Clauses(Ps[tid], s, e)
           IN /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ s' = Apply(Ps[tid], s, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
