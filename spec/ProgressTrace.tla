---------------------------- MODULE ProgressTrace ----------------------------
(* Validates recorded notifications of runs against Progress. *)
EXTENDS Progress, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}
\* lists of [k, n] pairs become functions (an empty JSON object would be read as a sequence)
Pairs(q) == [k \in {q[i].k : i \in 1..Len(q)} |-> LET j == CHOOSE j \in 1..Len(q) : q[j].k = k IN q[j].n]
Ps == TLCEval([i \in 1..Len(Traces) |-> [K |-> Traces[i].p.K, key |-> Pairs(Traces[i].p.key)]])

VARIABLES tid, l, s

Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Start(Ps[tid])

Next == /\ l <= Len(Traces[tid].t)
        /\ LET r == Traces[tid].t[l]
               e == CASE r.e = "phys" -> [r EXCEPT !.counts = Pairs(@), !.ops = ToSet(@)]
                      [] r.e = "examined" -> [r EXCEPT !.counts = Pairs(@)]
                      [] OTHER -> r
               v == Clauses(Ps[tid], s, e)
           IN /\ IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
              /\ s' = Apply(Ps[tid], s, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
