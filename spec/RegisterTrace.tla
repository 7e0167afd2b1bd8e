---------------------------- MODULE RegisterTrace ----------------------------
(* Validates recorded uses of the bundled stores against Register. *)
EXTENDS Register, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}

VARIABLES tid, l, m

Init == tid \in 1..Len(Traces) /\ l = 1 /\ m = Init0(1..Traces[tid].p.stores)

Next == /\ l <= Len(Traces[tid].t)
        /\ LET r == Traces[tid].t[l]
               e == IF "match" \in DOMAIN r THEN [r EXCEPT !.match = ToSet(r.match)] ELSE r
               v == Clauses(m, e)
           IN /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ m' = Apply(m, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
