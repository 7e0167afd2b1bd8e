------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The scheduler of uberjob (_execution/run_function_on_graph.py), one     *)
(* action per critical section: a pool of workers pulls nodes from a       *)
(* shared queue, runs them, and releases their successors through          *)
(* single-parent hand-off or through counters guarded by a lock; the       *)
(* calling thread starts the workers, waits for the queue to drain, sets   *)
(* `stop`, puts one sentinel per worker and joins them.                    *)
(*                                                                         *)
(* The queue is a bag: `default` (priorities), `random` and FIFO orders    *)
(* are all refinements of "take any element".                              *)
(*                                                                         *)
(* Every observable step emits an event of Run; `viol` collects the        *)
(* clauses it violates.  `viol = {}` therefore says that the engine        *)
(* implements Run.                                                         *)
(***************************************************************************)
EXTENDS Run, TLC

CONSTANTS N,            \* number of nodes
          Workers,      \* set of possible worker counts
          Errs,         \* set of possible max_errors (-1 = None)
          Rs,           \* set of possible retry counts
          WithLits,     \* also generate literal nodes
          Interrupts,   \* the calling thread may be interrupted
          StartFails,   \* starting a worker thread may fail
          UseLock,      \* counters are guarded by the lock      (FALSE: deliberately broken)
          EnqueueOnFail,\* successors released even on failure   (deliberately broken)
          DoneOnStartup \* sentinels are put also when pool start-up is cut short (FALSE: the original code)

VARIABLES P, c, a, viol,
          q, qd, unf,                  \* queue contents: nodes, sentinels; unfinished task count
          pc, cur, at, todo, suc, reg, \* per worker
          cnt, lock, stop, errs, first, mpc, mi, why

vars == <<P, c, a, viol, q, qd, unf, pc, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, mpc, mi, why>>
aux == <<P, c>>

Graphs == [1..N -> SUBSET (1..N)]
Dags == {g \in [1..N -> SUBSET (1..N)] : \A i \in 1..N : \A j \in g[i] : j < i}

Instances ==
    { [n |-> N, kind |-> k, preds |-> g, out |-> 1..N, W |-> w, ME |-> me, R |-> r, fail |-> f] :
        g \in Dags, k \in (IF WithLits THEN [1..N -> {"call", "lit"}] ELSE {[i \in 1..N |-> "call"]}),
        w \in Workers, me \in Errs, r \in Rs, f \in [1..N -> {0, 1, 9}] }

Wk == 1..P.W
ErrsAll == {-1, 0, 1}    \* configurations cannot spell negative numbers
ErrsNone == {-1}
ErrsOne == {0, 1}
Succ(n) == {m \in 1..N : n \in P.preds[m]}
Single(n) == Cardinality(P.preds[n]) = 1

Emit(e) == /\ viol' = viol \cup Clauses(c, a, e)
           /\ a' = Apply(c, a, e)
NoEmit == UNCHANGED <<viol, a>>

Sane(p) == /\ \A i \in 1..N : p.kind[i] = "lit" => p.fail[i] = 0
           /\ \A i \in 1..N : p.R = 1 => p.fail[i] # 1

Init == /\ P \in {p \in Instances : Sane(p)}
        /\ c = Static(P)
        /\ a = InitState /\ viol = {}
        /\ q = [n \in 1..N |-> IF P.preds[n] = {} THEN 1 ELSE 0]
        /\ qd = 0
        /\ unf = Cardinality({n \in 1..N : P.preds[n] = {}})
        /\ pc = [w \in 1..P.W |-> "off"]
        /\ cur = [w \in 1..P.W |-> 0]
        /\ at = [w \in 1..P.W |-> 0]
        /\ todo = [w \in 1..P.W |-> {}]
        /\ suc = [w \in 1..P.W |-> 0]
        /\ reg = [w \in 1..P.W |-> 0]
        /\ cnt = [n \in 1..N |-> Cardinality(P.preds[n])]
        /\ lock = 0 /\ stop = FALSE /\ errs = 0 /\ first = 0
        /\ mpc = "starting" /\ mi = 1 /\ why = "normal"

---------------------------------------------------------------------------
\* Worker actions
WGet(w) == /\ pc[w] = "get"
           /\ \/ /\ \E n \in 1..N : /\ q[n] > 0
                                    /\ q' = [q EXCEPT ![n] = @ - 1]
                                    /\ cur' = [cur EXCEPT ![w] = n]
                 /\ pc' = [pc EXCEPT ![w] = "check"]
                 /\ UNCHANGED qd
              \/ /\ qd > 0 /\ qd' = qd - 1
                 /\ pc' = [pc EXCEPT ![w] = "bye"]
                 /\ UNCHANGED <<q, cur>>
           /\ NoEmit
           /\ UNCHANGED <<aux, unf, at, todo, suc, reg, cnt, lock, stop, errs, first, mpc, mi, why>>

WCheck(w) == /\ pc[w] = "check"
             /\ pc' = [pc EXCEPT ![w] = IF stop THEN "taskdone"
                                        ELSE IF P.kind[cur[w]] = "lit" THEN "succ" ELSE "call"]
             /\ todo' = [todo EXCEPT ![w] = IF stop \/ P.kind[cur[w]] = "call" THEN {} ELSE Succ(cur[w])]
             /\ at' = [at EXCEPT ![w] = 1]
             /\ NoEmit
             /\ UNCHANGED <<aux, q, qd, unf, cur, suc, reg, cnt, lock, stop, errs, first, mpc, mi, why>>

WStart(w) == /\ pc[w] = "call"
             /\ Emit([e |-> "start", n |-> cur[w], a |-> at[w]])
             /\ pc' = [pc EXCEPT ![w] = "incall"]
             /\ UNCHANGED <<aux, q, qd, unf, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, mpc, mi, why>>

WEnd(w) == /\ pc[w] = "incall"
           /\ LET n == cur[w]
                  ok == at[w] > P.fail[n]
                  last == ok \/ at[w] >= P.R
              IN /\ Emit([e |-> "end", n |-> n, a |-> at[w], ok |-> ok, last |-> last, x |-> 10 * n + at[w]])
                 /\ IF ok \/ (last /\ EnqueueOnFail)
                    THEN /\ pc' = [pc EXCEPT ![w] = "succ"]
                         /\ todo' = [todo EXCEPT ![w] = Succ(n)]
                         /\ UNCHANGED at
                    ELSE IF last THEN /\ pc' = [pc EXCEPT ![w] = "failed"] /\ UNCHANGED <<todo, at>>
                    ELSE /\ pc' = [pc EXCEPT ![w] = "call"]
                         /\ at' = [at EXCEPT ![w] = @ + 1]
                         /\ UNCHANGED todo
           /\ UNCHANGED <<aux, q, qd, unf, cur, suc, reg, cnt, lock, stop, errs, first, mpc, mi, why>>

WFail(w) == \* critical section under failure_lock
           /\ pc[w] = "failed"
           /\ errs' = errs + 1
           /\ first' = IF first = 0 THEN cur[w] ELSE first
           /\ stop' = (stop \/ (P.ME >= 0 /\ errs + 1 > P.ME))
           /\ pc' = [pc EXCEPT ![w] = "taskdone"]
           /\ NoEmit
           /\ UNCHANGED <<aux, q, qd, unf, cur, at, todo, suc, reg, cnt, lock, mpc, mi, why>>

Put(n) == /\ q' = [q EXCEPT ![n] = @ + 1]
          /\ unf' = unf + 1

WSucc(w) == /\ pc[w] = "succ"
            /\ IF todo[w] = {}
               THEN /\ pc' = [pc EXCEPT ![w] = "taskdone"]
                    /\ UNCHANGED <<todo, suc, q, unf, lock>>
               ELSE \E n \in todo[w] :
                    /\ todo' = [todo EXCEPT ![w] = @ \ {n}]
                    /\ IF Single(n) THEN Put(n) /\ UNCHANGED <<pc, suc, lock>>
                       ELSE /\ (UseLock => lock = 0)
                            /\ lock' = IF UseLock THEN w ELSE lock
                            /\ suc' = [suc EXCEPT ![w] = n]
                            /\ pc' = [pc EXCEPT ![w] = "read"]
                            /\ UNCHANGED <<q, unf>>
            /\ NoEmit
            /\ UNCHANGED <<aux, qd, cur, at, reg, cnt, stop, errs, first, mpc, mi, why>>

WRead(w) == /\ pc[w] = "read"
            /\ reg' = [reg EXCEPT ![w] = cnt[suc[w]]]
            /\ pc' = [pc EXCEPT ![w] = "write"]
            /\ NoEmit
            /\ UNCHANGED <<aux, q, qd, unf, cur, at, todo, suc, cnt, lock, stop, errs, first, mpc, mi, why>>

WWrite(w) == /\ pc[w] = "write"
             /\ cnt' = [cnt EXCEPT ![suc[w]] = reg[w] - 1]
             /\ pc' = [pc EXCEPT ![w] = "test"]
             /\ NoEmit
             /\ UNCHANGED <<aux, q, qd, unf, cur, at, todo, suc, reg, lock, stop, errs, first, mpc, mi, why>>

WTest(w) == /\ pc[w] = "test"
            /\ IF cnt[suc[w]] = 0 THEN Put(suc[w]) ELSE UNCHANGED <<q, unf>>
            /\ lock' = IF lock = w THEN 0 ELSE lock
            /\ pc' = [pc EXCEPT ![w] = "succ"]
            /\ NoEmit
            /\ UNCHANGED <<aux, qd, cur, at, todo, suc, reg, cnt, stop, errs, first, mpc, mi, why>>

WTaskDone(w) == /\ pc[w] \in {"taskdone", "bye"}
                /\ unf' = unf - 1
                /\ pc' = [pc EXCEPT ![w] = IF pc[w] = "bye" THEN "exit" ELSE "get"]
                /\ NoEmit
                /\ UNCHANGED <<aux, q, qd, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, mpc, mi, why>>

Worker(w) == WGet(w) \/ WCheck(w) \/ WStart(w) \/ WEnd(w) \/ WFail(w) \/ WSucc(w)
             \/ WRead(w) \/ WWrite(w) \/ WTest(w) \/ WTaskDone(w)

---------------------------------------------------------------------------
\* The calling thread
MStart == /\ mpc = "starting"
          /\ IF mi > P.W THEN mpc' = "join" /\ UNCHANGED <<pc, mi>>
             ELSE /\ pc' = [pc EXCEPT ![mi] = "get"]
                  /\ mi' = mi + 1 /\ UNCHANGED mpc
          /\ NoEmit
          /\ UNCHANGED <<aux, q, qd, unf, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, why>>

MStartFail == /\ StartFails /\ mpc = "starting" /\ mi <= P.W
              /\ mpc' = IF DoneOnStartup THEN "stop" ELSE "joining"
              /\ why' = "other" /\ mi' = 1
              /\ NoEmit
              /\ UNCHANGED <<aux, q, qd, unf, pc, cur, at, todo, suc, reg, cnt, lock, stop, errs, first>>

MJoin == /\ mpc = "join" /\ unf = 0
         /\ mpc' = "stop" /\ mi' = 1
         /\ NoEmit
         /\ UNCHANGED <<aux, q, qd, unf, pc, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, why>>

MStop == /\ mpc = "stop" /\ stop' = TRUE /\ mpc' = "putdone"
         /\ NoEmit
         /\ UNCHANGED <<aux, q, qd, unf, pc, cur, at, todo, suc, reg, cnt, lock, errs, first, mi, why>>

MPutDone == /\ mpc = "putdone"
            /\ IF mi > P.W THEN mpc' = "joining" /\ UNCHANGED <<qd, unf, mi>>
               ELSE qd' = qd + 1 /\ unf' = unf + 1 /\ mi' = mi + 1 /\ UNCHANGED mpc
            /\ NoEmit
            /\ UNCHANGED <<aux, q, pc, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, why>>

\* KeyboardInterrupt received while calls are executing.  Reception is identified with the assignment
\* `stop = True` that is the first thing its handler does.
MIntr == /\ Interrupts /\ why = "normal" /\ a.running # {}
         /\ mpc \in {"starting", "join"}
         /\ Emit([e |-> "intr", strict |-> \A w \in Wk : pc[w] \in {"off", "get", "incall", "exit"}])
         /\ IF mpc = "starting" /\ ~DoneOnStartup
            THEN mpc' = "joining" /\ UNCHANGED stop
            ELSE mpc' = "putdone" /\ stop' = TRUE
         /\ mi' = 1 /\ why' = "ki"
         /\ UNCHANGED <<aux, q, qd, unf, pc, cur, at, todo, suc, reg, cnt, lock, errs, first>>

MReturn == /\ mpc = "joining"
           /\ \A w \in Wk : pc[w] \in {"off", "exit"}
           /\ mpc' = "returned"
           /\ Emit(IF why = "ki" THEN [e |-> "ret", out |-> "ki", live |-> 0]
                   ELSE IF why = "other" THEN [e |-> "ret", out |-> "other", live |-> 0, expected |-> TRUE]
                   ELSE IF first = 0 THEN [e |-> "ret", out |-> "value", live |-> 0]
                   ELSE [e |-> "ret", out |-> "callerror", live |-> 0, n |-> first,
                         x |-> IF first \in a.failed THEN LastExc(a, first) ELSE 0])
           /\ UNCHANGED <<aux, q, qd, unf, pc, cur, at, todo, suc, reg, cnt, lock, stop, errs, first, mi, why>>

Main == MStart \/ MStartFail \/ MJoin \/ MStop \/ MPutDone \/ MIntr \/ MReturn
Progress == MStart \/ MJoin \/ MStop \/ MPutDone \/ MReturn

Done == mpc = "returned" /\ UNCHANGED vars
Next == (\E w \in Wk : Worker(w)) \/ Main \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress) /\ \A w \in 1..3 : WF_vars(w \in Wk /\ Worker(w))

---------------------------------------------------------------------------
\* Properties
Implements == viol = {}                             \* every clause of Run (C01 C04 C06 C07 C10 C17)
QueueOnce == \A n \in 1..N : q[n] <= 1              \* C04: never enqueued twice
NoLostCounter == \A n \in 1..N : cnt[n] >= 0
QuietOK ==  \* C10: at quiescence as many calls run as possible
    (mpc = "join" /\ \A w \in Wk : pc[w] \in {"get", "incall"} /\ qd = 0 /\ \A n \in 1..N : q[n] = 0)
        => QuietClauses(c, a) = {}
\* Maximality seen from the queue: idle workers and queued nodes never coexist at quiescence.
Bounded == unf >= 0
Termination == <>(mpc = "returned")                 \* C07
=============================================================================
