------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Isolation of plans and registries (C13).                                *)
(*                                                                         *)
(* The objects of a history are plans (p1, p2, ...) and registries (r1,    *)
(* ...).  The state maps every object to its content (numbered; two        *)
(* contents have the same number iff they consist of the same node objects *)
(* with the same attributes and scopes, the same edges, respectively the   *)
(* same entries) and every scope-free meaning observed so far to its       *)
(* outcome.                                                                *)
(*   [e |-> "op", op, w, obs, of]   an operation was performed, or user    *)
(*         code ran in the course of one; w: the objects it may change;    *)
(*         obs: the content of every object now; of: for a new object, the *)
(*         object that it is a copy of ("": none)                          *)
(*   [e |-> "result", key, val]     a run of the plan and registry with    *)
(*         the contents and output denoted by key returned val             *)
(*   [e |-> "scope", want, got]     the scope of a call added by the user  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Viol(b, name) == IF b THEN {} ELSE {name}

Start == [obs |-> << >>, memo |-> << >>]
Objects(m) == DOMAIN m.obs

Name(op) == CASE op \in {"run", "inside"} -> "C13.run-modifies"
              [] op = "dry" -> "C13.dry-run-modifies"
              [] op = "render" -> "C13.render-modifies"
              [] op = "copy" -> "C13.copy-modifies"
              [] OTHER -> "C13.copy-dependent"   \* a change to one object shows in another

Clauses(m, e) ==
    CASE e.e = "op" ->
            UNION {Viol(o \in DOMAIN e.obs /\ e.obs[o] = m.obs[o], Name(e.op)) : o \in Objects(m) \ e.w}
            \cup UNION {Viol(e.of = "" \/ e.obs[o] = m.obs[e.of], "C13.copy-differs") : o \in DOMAIN e.obs \ Objects(m)}
      [] e.e = "result" -> IF e.key \in DOMAIN m.memo THEN Viol(m.memo[e.key] = e.val, "C13.meaning") ELSE {}
      [] e.e = "scope" -> Viol(e.want = e.got, "C13.scope")
      [] OTHER -> {}

Apply(m, e) ==
    CASE e.e = "op" -> [m EXCEPT !.obs = e.obs]
      [] e.e = "result" -> IF e.key \in DOMAIN m.memo THEN m ELSE [m EXCEPT !.memo = (e.key :> e.val) @@ @]
      [] OTHER -> m
=============================================================================
