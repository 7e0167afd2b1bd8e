----------------------------- MODULE ReleaseTrace -----------------------------
(* Validates recorded runs against Release. *)
EXTENDS Release, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}
Ps == TLCEval([i \in 1..Len(Traces) |-> [out |-> Traces[i].p.out,
                                         cons |-> [n \in 1..Len(Traces[i].p.cons) |-> ToSet(Traces[i].p.cons[n])]]])

VARIABLES tid, l, s

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Start

Next == /\ l <= Len(Traces[tid].t)
        /\ LET r == Traces[tid].t[l]
               e == CASE r.e \in {"quiet", "ret"} -> [r EXCEPT !.alive = ToSet(@)]
                      [] r.e = "end" -> [r EXCEPT !.has = ToSet(@)]
                      [] OTHER -> r
               v == Clauses(Ps[tid], s, e)
           IN /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ s' = Apply(Ps[tid], s, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
