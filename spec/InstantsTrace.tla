---------------------------- MODULE InstantsTrace ----------------------------
(* Validates which stores real runs rewrote against Instants. *)
EXTENDS Instants, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
ToSet(q) == {q[i] : i \in 1..Len(q)}
Fix(p) == [n |-> p.n, kind |-> p.kind, args |-> p.args, deps |-> [i \in 1..p.n |-> ToSet(p.deps[i])], reg |-> p.reg, side |-> p.side,
           allout |-> {}]
Cs == TLCEval([i \in 1..Len(Traces) |-> TLCEval(Static(Fix(Traces[i].p)))])

VARIABLES tid, l

Init == tid \in 1..Len(Traces) /\ l = 1

Next == /\ l <= Len(Traces[tid].t)
        /\ LET r == Traces[tid].t[l]
               v == InstClauses(Cs[tid], Traces[tid].p, [r EXCEPT !.wrote = ToSet(@)])
           IN IF v = {} THEN TRUE ELSE PrintT("VIOL " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(v))
        /\ l' = l + 1
        /\ UNCHANGED tid
=============================================================================
