------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* The account of one run that progress observers receive (C15).           *)
(*                                                                         *)
(* p: K      number of observers that were passed to run (however nested)  *)
(*    key    scope-id -> key.  A scope-id stands for one section and scope *)
(*           as reported; a key for a section, the scope set by the user   *)
(*           and the name of the called function                           *)
(* Events                                                                  *)
(*   [e |-> "note", m, k, sc, a]  observer m received k: "enter", "exit",  *)
(*         "total" (by a), "running", "completed", "failed" for scope-id sc*)
(*   [e |-> "op", k, key, ok, last]   a call, store read or store write    *)
(*         really started (k = "start", first attempt) or ended ("end")    *)
(*   [e |-> "phys", counts, ops]  the physical plan has counts[key] calls  *)
(*         for every key; ops: the keys whose calls are visible as ops     *)
(*   [e |-> "examined", counts]   the stale check has that many calls to   *)
(*         examine (for the listed keys)                                   *)
(*   [e |-> "ret", out, dry, strict]  run returned or raised; strict: no   *)
(*         call ended with an exception that is not an Exception           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Viol(b, name) == IF b THEN {} ELSE {name}
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Add(f, k, n) == (k :> (Get(f, k) + n)) @@ f

Fresh == [in |-> 0, out |-> 0, total |-> << >>, started |-> << >>, completed |-> << >>, failed |-> << >>]
Start(p) == [mem |-> [m \in 1..p.K |-> Fresh], opStart |-> << >>, opOk |-> << >>, opFail |-> << >>,
             phys |-> << >>, ops |-> {}, examined |-> << >>, hasPhys |-> FALSE]

Scopes(o) == DOMAIN o.total \cup DOMAIN o.started \cup DOMAIN o.completed \cup DOMAIN o.failed
Running(o, sc) == Get(o.started, sc) - Get(o.completed, sc) - Get(o.failed, sc)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Get(f, x) + SumOver(f, S \ {x})
\* a counter of scope-ids summed by key
ByKey(p, f, k) == SumOver(f, {sc \in DOMAIN f : p.key[sc] = k})
KeysOf(p, f) == {p.key[sc] : sc \in DOMAIN f}

Note(p, s, e) ==
    LET o == s.mem[e.m] IN
    CASE e.k = "enter" -> Viol(o.in = 0, "C15.entered-again")
      [] e.k = "exit" -> Viol(o.in = 1, "C15.not-entered") \cup Viol(o.out = 0, "C15.exited-again")
      [] OTHER ->
            Viol(o.in = 1, "C15.not-entered")
            \cup Viol(o.out = 0, "C15.after-exit")
            \cup (CASE e.k = "total" -> Viol(Get(o.started, e.sc) = 0, "C15.total-after-running")
                    [] e.k = "running" -> Viol(Get(o.total, e.sc) > 0, "C15.running-before-total")
                                          \cup Viol(Get(o.started, e.sc) < Get(o.total, e.sc), "C15.more-than-total")
                    [] OTHER -> Viol(Running(o, e.sc) > 0, "C15.finished-without-running"))

Ret(p, s, e) ==
    LET good == e.out = "value" IN
    UNION {
        LET o == s.mem[m]
            ks == KeysOf(p, o.total) IN
        Viol(o.in = 1 /\ o.out = 1, "C15.exit-missing")
        \cup Viol(e.strict => \A sc \in Scopes(o) : Running(o, sc) = 0, "C15.left-running")
        \cup Viol(good /\ ~e.dry => \A sc \in Scopes(o) : Get(o.completed, sc) = Get(o.total, sc), "C15.completed-total")
        \* the totals are the number of calls executed, or that a dry run would execute
        \cup Viol(good /\ s.hasPhys =>
                     \A k \in DOMAIN s.phys \cup {k \in ks : SubSeq(k, 1, 4) = "run|"} :
                        ByKey(p, o.total, k) = IF k \in s.ops /\ ~e.dry THEN Get(s.opStart, k) ELSE Get(s.phys, k), "C15.run-totals")
        \cup Viol(good => \A k \in DOMAIN s.examined : ByKey(p, o.total, k) = s.examined[k], "C15.stale-totals")
        \* what is reported is what happened
        \cup Viol(e.strict => \A k \in DOMAIN s.opStart \cup {k \in KeysOf(p, o.started) : k \in s.ops} :
                     /\ ByKey(p, o.completed, k) = Get(s.opOk, k)
                     /\ ByKey(p, o.failed, k) = Get(s.opFail, k), "C15.account")
        : m \in 1..p.K}
    \cup Viol(\A m \in 1..p.K : \A sc \in Scopes(s.mem[m]) \cup Scopes(s.mem[1]) :
                 /\ Get(s.mem[m].total, sc) = Get(s.mem[1].total, sc)
                 /\ Get(s.mem[m].started, sc) = Get(s.mem[1].started, sc)
                 /\ Get(s.mem[m].completed, sc) = Get(s.mem[1].completed, sc)
                 /\ Get(s.mem[m].failed, sc) = Get(s.mem[1].failed, sc), "C15.forwarded")

Clauses(p, s, e) ==
    CASE e.e = "note" -> Note(p, s, e)
      [] e.e = "ret" -> Ret(p, s, e)
      [] e.e = "hang" -> {"C07.hang"}
      [] OTHER -> {}

Apply(p, s, e) ==
    CASE e.e = "note" ->
            (CASE e.k = "enter" -> [s EXCEPT !.mem[e.m].in = @ + 1]
               [] e.k = "exit" -> [s EXCEPT !.mem[e.m].out = @ + 1]
               [] e.k = "total" -> [s EXCEPT !.mem[e.m].total = Add(@, e.sc, e.a)]
               [] e.k = "running" -> [s EXCEPT !.mem[e.m].started = Add(@, e.sc, 1)]
               [] e.k = "completed" -> [s EXCEPT !.mem[e.m].completed = Add(@, e.sc, 1)]
               [] OTHER -> [s EXCEPT !.mem[e.m].failed = Add(@, e.sc, 1)])
      [] e.e = "op" ->
            (CASE e.k = "start" -> [s EXCEPT !.opStart = Add(@, e.key, 1)]
               [] e.ok -> [s EXCEPT !.opOk = Add(@, e.key, 1)]
               [] e.last -> [s EXCEPT !.opFail = Add(@, e.key, 1)]
               [] OTHER -> s)
      [] e.e = "phys" -> [s EXCEPT !.phys = e.counts, !.ops = e.ops, !.hasPhys = TRUE]
      [] e.e = "examined" -> [s EXCEPT !.examined = e.counts]
      [] OTHER -> s
=============================================================================
