--------------------------- MODULE FileStoreTrace ---------------------------
(* Validates recorded write attempts of the bundled file stores against FileStore. *)
EXTENDS FileStore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}

VARIABLES tid, l, cur

Init == tid \in 1..Len(Traces) /\ l = 1 /\ cur = {0}

Next == /\ l <= Len(Traces[tid].t)
        /\ LET r == Traces[tid].t[l]
               e == IF "match" \in DOMAIN r THEN [r EXCEPT !.match = ToSet(r.match)] ELSE r
               v == Clauses(cur, e)
           IN /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ cur' = Apply(cur, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
