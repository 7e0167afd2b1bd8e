------------------------------- MODULE Release -------------------------------
(***************************************************************************)
(* How long results stay alive during a run (C16).                         *)
(*                                                                         *)
(* p: cons   for every call of the physical plan (user calls, gathers,     *)
(*           unpackings, store reads and writes) the set of the calls that *)
(*           take its result as an argument                                *)
(*    out    the call whose result is the output (0: none)                 *)
(* Every object returned by user code is a token; has[n] is the set of     *)
(* tokens contained in the result of call n.                               *)
(*   [e |-> "end", n, ok, has]   call n ended for good; has: the tokens in *)
(*           its result, or, if it failed, in its arguments                *)
(*   [e |-> "quiet", alive]  every worker is about to call user code or    *)
(*           idle; alive: the tokens that are reachable                    *)
(*   [e |-> "ret", alive, ok]  run has returned and its threads have ended *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Viol(b, name) == IF b THEN {} ELSE {name}

Start == [fin |-> {}, has |-> << >>, bad |-> {}]

Needed(p, s, n) == n = p.out \/ \E c \in p.cons[n] : c \notin s.fin
May(p, s) == UNION {s.has[n] : n \in {n \in DOMAIN s.has : Needed(p, s, n)}}

\* the error that run will raise refers to the frame, and thereby to the arguments, of one failed call
Explained(s, extra) == extra = {} \/ \E b \in s.bad : extra \subseteq b

Clauses(p, s, e) ==
    CASE e.e = "quiet" -> Viol(Explained(s, e.alive \ May(p, s)), "C16.alive")
      [] e.e = "ret" -> Viol(e.alive \subseteq (IF e.ok /\ p.out \in DOMAIN s.has THEN s.has[p.out] ELSE {}), "C16.after-run")
      [] e.e = "hang" -> {"C07.hang"}
      [] e.e = "crash" -> {"C02.crash"}
      [] OTHER -> {}

Apply(p, s, e) ==
    CASE e.e = "end" /\ e.ok -> [s EXCEPT !.fin = @ \cup {e.n}, !.has = (e.n :> e.has) @@ @]
      [] e.e = "end" /\ ~e.ok -> [s EXCEPT !.fin = @ \cup {e.n}, !.bad = @ \cup {e.has}]
      [] OTHER -> s
=============================================================================
