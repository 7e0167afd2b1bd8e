--------------------------- MODULE IsolationTrace ---------------------------
(* Validates recorded histories of plans and registries against Isolation. *)
EXTENDS Isolation, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}

VARIABLES tid, l, m

Init == tid \in 1..Len(Traces) /\ l = 1 /\ m = Start

Next == /\ l <= Len(Traces[tid].t)
        /\ LET r == Traces[tid].t[l]
               e == IF "w" \in DOMAIN r THEN [r EXCEPT !.w = ToSet(r.w)] ELSE r
               v == Clauses(m, e)
           IN /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ m' = Apply(m, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
