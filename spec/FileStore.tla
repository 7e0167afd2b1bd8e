------------------------------ MODULE FileStore ------------------------------
(***************************************************************************)
(* Atomic replacement of a file (C11).                                     *)
(*                                                                         *)
(* The monitored state is the set of values that the target holds (values  *)
(* are numbered, 0: nothing is stored; several numbers if values cannot be *)
(* told apart).  A write attempt is observed as                            *)
(*   [e |-> "write", v, bad, inj, out, match, mt, extra, unl]              *)
(* v: the value; bad: it cannot be serialised; inj: a fault was injected;  *)
(* out: "ok", "exc" (raised) or "died" (the process ended during the       *)
(* write); match: the values that the target holds afterwards; mt: its     *)
(* modified time changed; extra: files other than the target that are new  *)
(* or changed; unl: the removal of a file failed by injection.             *)
(*   [e |-> "set", match]   something else put this onto the target        *)
(*   [e |-> "read", match]  the values that a read by the store returned   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Viol(b, name) == IF b THEN {} ELSE {name}

Clauses(cur, e) ==
    CASE e.e = "write" ->
            Viol(e.match \cap (cur \cup {e.v}) # {}, "C11.atomic")
            \cup (IF e.out = "ok" THEN Viol(e.v \in e.match, "C11.complete") ELSE {})
            \cup Viol(e.mt => e.v \in e.match, "C11.mtime")
            \cup (IF e.out = "exc" /\ ~e.unl THEN Viol(e.extra = 0, "C11.staging-left") ELSE {})
            \cup (IF e.bad \/ e.inj THEN {} ELSE Viol(e.out = "ok", "C11.later-write"))
      [] e.e = "read" -> Viol(e.match \cap cur # {}, "C11.later-read")
      [] OTHER -> {}

Apply(cur, e) == IF e.e \in {"write", "set"} THEN e.match ELSE cur
=============================================================================
