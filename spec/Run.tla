-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* What a user can observe of uberjob.run on a plan without a registry:    *)
(* calls start, calls end (normally or by raising), the calling thread is  *)
(* interrupted, run returns.                                               *)
(*                                                                         *)
(* A problem instance is a record                                          *)
(*   n      number of nodes                                                *)
(*   kind   <<"call"|"lit", ...>>                                          *)
(*   preds  <<{direct predecessors}, ...>>   (any kind of edge)            *)
(*   out    set of nodes the requested output refers to                    *)
(*   W      max_workers                                                    *)
(*   ME     max_errors, -1 for None                                        *)
(*   R      attempts allowed by retry                                      *)
(*   fail   <<number of leading attempts that raise, ...>>                 *)
(*                                                                         *)
(* Clauses(c, s, e) is the set of names of the clauses that event e        *)
(* violates in state s.  The design model (RunSpec) only takes steps that  *)
(* violate nothing; the engine model and the traces of the real code are   *)
(* checked by evaluating the very same clauses on the events they emit.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

RECURSIVE AncClosure(_, _)
AncClosure(pr, S) ==
    LET U == S \cup UNION {pr[i] : i \in S} IN
    IF U = S THEN S ELSE AncClosure(pr, U)

StrictAnc(pr, i) == AncClosure(pr, pr[i])

Static(p) ==
    LET N == 1..p.n
        anc == TLCEval([i \in N |-> StrictAnc(p.preds, i)])
        needed == AncClosure(p.preds, p.out)
    IN  [ n |-> p.n, W |-> p.W, ME |-> p.ME, R |-> p.R, fail |-> p.fail,
          calls |-> {i \in N : p.kind[i] = "call"},
          pr |-> p.preds,
          anc |-> anc,
          needed |-> needed,
          cyc |-> \E i \in needed : i \in anc[i] ]

InitState == [ started |-> {}, running |-> {}, ok |-> {}, failed |-> {},
               att |-> << >>,          \* sequence of <<node, attempt, exception id>> of failed attempts
               first |-> 0,            \* first node that failed for good
               intr |-> FALSE,         \* the calling thread has received KeyboardInterrupt
               idle |-> 0,             \* workers that were not inside a call when it did
               late |-> 0,             \* calls started since then
               strict |-> FALSE,       \* ... and no worker was about to start a call at that moment
               abort |-> FALSE,        \* run is giving up for an external reason (no thread could be started)
               ret |-> FALSE ]

NCalls(c) == c.needed \cap c.calls
AncCalls(c, n) == c.anc[n] \cap c.calls

Attempts(s, n) == {s.att[i][2] : i \in {j \in 1..Len(s.att) : s.att[j][1] = n}}
LastExc(s, n) == LET I == {j \in 1..Len(s.att) : s.att[j][1] = n}
                     k == CHOOSE j \in I : \A m \in I : m <= j
                 IN s.att[k][3]

Limit(c) == c.ME >= 0
Stopped(c, s) == Limit(c) /\ Cardinality(s.failed) > c.ME

\* Calls that could start now: every call they depend on has succeeded.
Ready(c, s) == {n \in NCalls(c) : n \notin s.started /\ AncCalls(c, n) \subseteq s.ok}

\* Calls that will fail although nothing they depend on fails.
WillFail(c, n) == n \in NCalls(c) /\ c.fail[n] >= c.R
Eligible(c) == {n \in NCalls(c) : \A m \in AncCalls(c, n) : ~WillFail(c, m)}
EligibleFailing(c) == {n \in Eligible(c) : WillFail(c, n)}

Min(a, b) == IF a < b THEN a ELSE b

Viol(b, name) == IF b THEN {} ELSE {name}

StartClauses(c, s, e) ==
    LET n == e.n IN
    Viol(AncCalls(c, n) \subseteq s.ok, "C01.deps")
    \cup Viol(e.a > 1 \/ n \notin s.started, "C04.once")
    \cup Viol(n \in c.needed, "C04.needed")
    \cup Viol(AncCalls(c, n) \cap s.failed = {}, "C06.downstream")
    \cup Viol(Cardinality(s.running) + 1 <= c.W, "C10.workers")
    \cup Viol(e.a <= c.R, "C10.retry-max")
    \cup Viol(e.a = 1 \/ (n \notin s.running /\ n \notin s.ok /\ (e.a - 1) \in Attempts(s, n)), "C10.retry-only-after-failure")
    \cup Viol(n \notin s.running, "C04.overlap")
    \cup Viol(~s.ret, "C07.start-after-return")
    \cup Viol(~(s.intr /\ s.strict /\ e.a = 1), "C17.start-after-interrupt")
    \cup Viol(~s.intr \/ e.a > 1 \/ s.late < s.idle, "C17.start-after-interrupt")

EndClauses(c, s, e) ==
    LET n == e.n
        final == ~e.ok /\ e.last
        nf == Cardinality(s.failed \cup {n})
    IN
    Viol(~s.ret, "C07.running-after-return")
    \cup Viol(~final \/ ~Limit(c) \/ nf <= c.ME + c.W, "C10.max-errors")
    \cup Viol(~final \/ ~Limit(c) \/ c.W > 1 \/ nf <= c.ME + 1, "C10.max-errors-single")

QuietClauses(c, s) ==
    Viol(Stopped(c, s) \/ s.intr \/ s.ret \/ s.abort
         \/ Cardinality(s.running) = Min(c.W, Cardinality(s.running) + Cardinality(Ready(c, s))), "C10.parallel")

RetClauses(c, s, e) ==
    Viol(~s.ret, "C07.return-twice")
    \cup Viol(s.running = {}, "C07.running-at-return")
    \cup Viol(e.live = 0, "C07.threads-at-return")
    \cup (IF s.intr THEN Viol(s.running = {} /\ e.live = 0, "C17.cleanup") ELSE {})
    \cup Viol(~(s.intr) \/ e.out = "ki", "C17.propagate")
    \cup Viol(e.out # "ki" \/ s.intr, "C06.type")
    \cup Viol((e.out = "cycle") <=> (c.cyc /\ ~s.intr), "C07.cycle")
    \cup Viol(~c.cyc \/ s.started = {}, "C07.cycle-before-calls")
    \cup (CASE e.out = "value" ->
                 Viol(NCalls(c) \subseteq s.ok \/ s.failed # {}, "C04.all")
                 \cup Viol(s.failed = {}, "C06.raise")
            [] e.out = "callerror" ->
                 Viol(e.n \in s.failed, "C06.named")
                 \cup Viol(e.n \notin s.failed \/ e.x = LastExc(s, e.n), "C06.cause")
                 \cup Viol(e.n \notin s.failed \/ c.R = 1 \/ e.x = LastExc(s, e.n), "C10.retry-last-exception")
                 \cup Viol(c.W > 1 \/ e.n = s.first, "C06.first")
                 \cup Viol(Limit(c) \/ Eligible(c) \subseteq (s.ok \cup s.failed), "C10.max-errors-none")
                 \cup Viol(~Limit(c) \/ c.W > 1
                           \/ Cardinality(s.failed) = Min(c.ME + 1, Cardinality(EligibleFailing(c))), "C10.max-errors-single")
            [] e.out = "other" -> Viol(e.expected, "C06.type")
            [] OTHER -> {})

Clauses(c, s, e) ==
    CASE e.e = "start" -> StartClauses(c, s, e)
      [] e.e = "end"   -> EndClauses(c, s, e)
      [] e.e = "quiet" -> QuietClauses(c, s)
      [] e.e = "ret"   -> RetClauses(c, s, e)
      [] e.e = "hang"  -> {"C07.hang"} \cup (IF s.intr THEN {"C17.hang"} ELSE {})
      [] e.e = "died"  -> {"C07.worker-died"}
      [] e.e = "observer" -> Viol(e.exited = 1 \/ ~s.intr, "C17.observer")
      [] OTHER -> {}

Apply(c, s, e) ==
    CASE e.e = "start" ->
            [s EXCEPT !.started = @ \cup {e.n}, !.running = @ \cup {e.n},
                      !.late = IF s.intr /\ e.a = 1 THEN @ + 1 ELSE @]
      [] e.e = "end" ->
            IF e.ok THEN [s EXCEPT !.running = @ \ {e.n}, !.ok = @ \cup {e.n}]
            ELSE [s EXCEPT !.running = @ \ {e.n},
                           !.att = Append(@, <<e.n, e.a, e.x>>),
                           !.failed = IF e.last THEN @ \cup {e.n} ELSE @,
                           !.first = IF e.last /\ @ = 0 THEN e.n ELSE @]
      [] e.e = "intr" ->
            [s EXCEPT !.intr = TRUE, !.strict = e.strict, !.idle = c.W - Cardinality(s.running)]
      [] e.e = "abort" -> [s EXCEPT !.abort = TRUE]
      [] e.e = "ret" -> [s EXCEPT !.ret = TRUE]
      [] OTHER -> s
=============================================================================
