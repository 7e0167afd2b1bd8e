--------------------------- MODULE RegistryTrace ---------------------------
(* Validates recorded histories of runs with a registry against Registry. *)
EXTENDS Registry, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

ToSet(q) == {q[i] : i \in 1..Len(q)}
Problem(t) == [t.p EXCEPT !.deps = [i \in 1..t.p.n |-> ToSet(t.p.deps[i])], !.allout = ToSet(t.p.allout)]
Statics == TLCEval([i \in 1..Len(Traces) |-> TLCEval(Static(Problem(Traces[i])))])

VARIABLES tid, l, s

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = InitState(Statics[tid])

Next == /\ l <= Len(Traces[tid].t)
        /\ LET e == Traces[tid].t[l]
               v == Clauses(Statics[tid], s, e)
           IN /\ IF v = {} THEN TRUE
                 ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ s' = Apply(Statics[tid], s, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
