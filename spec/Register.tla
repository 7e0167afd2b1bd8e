------------------------------- MODULE Register -------------------------------
(***************************************************************************)
(* Value stores as registers (C12).                                        *)
(*                                                                         *)
(* The state of a store s: cur[s], the number of the value it holds (0:    *)
(* nothing), and last[s], the modified time it reported after the last     *)
(* write (an instant <<day, second, microsecond>>, << >> if none yet).     *)
(* Events:                                                                 *)
(*   [e |-> "write", s, v, out]        out: "ok" or "exc"; v is in the     *)
(*                                     domain of s unless bad              *)
(*   [e |-> "read", s, out, match]     match: the numbers of the values    *)
(*                                     written to s so far that equal what *)
(*                                     was returned, with the same types   *)
(*   [e |-> "time", s, out, t, lo, hi] the reported modified time (<< >>:  *)
(*                                     None) and, for files, the instants  *)
(*                                     between which the true one lies     *)
(*   [e |-> "gone", s]                 something else removed the value    *)
(*   [e |-> "aged", s]                 something else changed the modified *)
(*                                     time to an earlier one              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Viol(b, name) == IF b THEN {} ELSE {name}

Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

Init0(S) == [cur |-> [s \in S |-> 0], last |-> [s \in S |-> << >>]]

Clauses(m, e) ==
    CASE e.e = "write" -> IF e.bad THEN {} ELSE Viol(e.out = "ok", "C12.write-fails")
      [] e.e = "read" -> IF m.cur[e.s] = 0 THEN {}
                         ELSE Viol(e.out = "ok", "C12.read-fails")
                              \cup (IF e.out = "ok" THEN Viol(m.cur[e.s] \in e.match, "C12.roundtrip") ELSE {})
      [] e.e = "time" -> Viol(e.out = "ok", "C12.time-fails")
                         \cup (IF e.out # "ok" THEN {}
                               ELSE Viol((e.t = << >>) <=> (m.cur[e.s] = 0), "C12.time-none")
                                    \cup (IF e.t = << >> \/ m.last[e.s] = << >> THEN {}
                                          ELSE Viol(~Before(e.t, m.last[e.s]), "C12.time-decreases"))
                                    \cup (IF e.t = << >> \/ e.lo = << >> THEN {}
                                          ELSE Viol(~Before(e.t, e.lo) /\ ~Before(e.hi, e.t), "C12.time-wrong")))
      [] OTHER -> {}

Apply(m, e) ==
    CASE e.e = "write" -> IF e.out = "ok" THEN [m EXCEPT !.cur[e.s] = e.v] ELSE m
      [] e.e = "gone" -> [m EXCEPT !.cur[e.s] = 0, !.last[e.s] = << >>]
      [] e.e = "aged" -> [m EXCEPT !.last[e.s] = << >>]
      [] e.e = "time" -> IF e.out = "ok" THEN [m EXCEPT !.last[e.s] = e.t] ELSE m
      [] OTHER -> m
=============================================================================
