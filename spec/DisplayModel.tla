----------------------------- MODULE DisplayModel -----------------------------
(***************************************************************************)
(* The design of a display: counters and elapsed times that are updated by *)
(* the threads that notify, and a thread that renders them now and then:   *)
(* after an initial delay, then at intervals of Min when something has     *)
(* changed and of Max otherwise, and once more at the end.                 *)
(* Elapsed time is kept in half seconds; at most two calls run at a time.  *)
(***************************************************************************)
EXTENDS Display

CONSTANTS Horizon, Initial, Min1, Max1, Totals,
          NoFinal, StaleAtOutput, NoStale, SortRaises, NotSplit, LateElapsed \* deliberately broken variants

SmallTotals == <<2, 1>>
N == Len(Totals)
Scopes == 1..N
P == [n |-> N, sec |-> [k \in Scopes |-> "run"], gap |-> Initial + Min1 + Max1]

VARIABLES time, cnt, el, prev, stale, last, pc, due, fin, done, val, s, viol
vars == <<time, cnt, el, prev, stale, last, pc, due, fin, done, val, s, viol>>
\* cnt, el: counters and elapsed time (half seconds) per scope; prev: when el was brought up to date; pc, due, fin: the update thread, when
\* it wakes and whether it has seen the end; val: what it has rendered and not yet output; done: 0 running, 1 exiting, 2 exited

Init == /\ time = 1 /\ cnt = [k \in Scopes |-> Zero] /\ el = [k \in Scopes |-> 0] /\ prev = 1 /\ stale = TRUE /\ last = 0
        /\ pc = "wait" /\ due = 1 + Initial /\ fin = FALSE /\ done = 0 /\ val = << >> /\ s = Start(P) /\ viol = {}

Emit(e) == viol' = viol \cup Clauses(P, s, e) /\ s' = Apply(P, s, e)
Running == Sum([k \in Scopes |-> cnt[k].r], Scopes)
Fresh == IF Running = 0 THEN el
         ELSE [k \in Scopes |-> el[k] + cnt[k].r * (IF NotSplit THEN 2 * (time - prev) ELSE (2 * (time - prev)) \div Running)]
Busy == pc = "out" \/ (pc = "wait" /\ (time >= due \/ done = 1))

Note(k, sc) ==
    /\ done = 0
    /\ LET v == cnt[sc] IN
       CASE k = "total" -> v.t = 0 /\ \A x \in Scopes : x < sc => cnt[x].t > 0
         [] k = "running" -> v.t > 0 /\ v.r + v.c + v.f < v.t /\ Running < 2 /\ \A x \in Scopes : cnt[x].t > 0
         [] OTHER -> v.r > 0
    /\ LET late == LateElapsed /\ k \in {"completed", "failed"} IN
       /\ el' = IF k = "total" \/ late THEN el ELSE Fresh
       /\ prev' = IF k = "total" THEN prev ELSE time
    /\ cnt' = [cnt EXCEPT ![sc] = CASE k = "total" -> [@ EXCEPT !.t = Totals[sc]]
                                    [] k = "running" -> [@ EXCEPT !.r = @ + 1]
                                    [] k = "completed" -> [@ EXCEPT !.r = @ - 1, !.c = @ + 1]
                                    [] k = "failed" -> [@ EXCEPT !.r = @ - 1, !.f = @ + 1]]
    /\ stale' = ~NoStale
    /\ Emit([e |-> "note", at |-> time, k |-> k, sc |-> sc, a |-> Totals[sc]])
    /\ UNCHANGED <<time, last, pc, due, fin, done, val>>

Snapshot(x) == [rows |-> LET S == {k \in Scopes : cnt[k].t > 0} IN
                         LET row(k) == [sc |-> k, t |-> cnt[k].t, r |-> cnt[k].r, c |-> cnt[k].c, f |-> cnt[k].f, el |-> x[k] \div 2, bv |-> -1, bm |-> -1]
                         IN IF S = {} THEN << >> ELSE IF S = {1} THEN <<row(1)>> ELSE IF S = {2} THEN <<row(2)>> ELSE <<row(1), row(2)>>]

Rest(f) == pc' = (IF f THEN "ended" ELSE "wait") /\ due' = time + Min1

Wake ==
    /\ pc = "wait" /\ (time >= due \/ done = 1)
    /\ fin' = (done = 1)
    /\ IF done = 1 /\ NoFinal THEN pc' = "ended" /\ UNCHANGED <<el, prev, stale, last, due, val>>
       ELSE IF stale \/ last = 0 \/ time - last >= Max1
       THEN IF SortRaises /\ Cardinality({k \in Scopes : cnt[k].t > 0}) > 1
            THEN pc' = "dead" /\ UNCHANGED <<el, prev, stale, last, due, val>>
            ELSE /\ el' = Fresh /\ prev' = time /\ val' = <<Snapshot(Fresh)>> /\ last' = time /\ pc' = "out"
                 /\ stale' = (StaleAtOutput /\ stale) /\ UNCHANGED due
       ELSE Rest(done = 1) /\ UNCHANGED <<el, prev, stale, last, val>>
    /\ IF pc' = "dead" THEN Emit([e |-> "died"]) ELSE UNCHANGED <<s, viol>>
    /\ UNCHANGED <<time, cnt, done>>

Output ==
    /\ pc = "out" /\ Rest(fin) /\ val' = << >>
    /\ stale' = (stale /\ ~StaleAtOutput)
    /\ Emit([e |-> "shot", at |-> time, w |-> 0, whole |-> TRUE, rows |-> val[1].rows, sums |-> << >>])
    /\ UNCHANGED <<time, cnt, el, prev, last, fin, done>>

Tick ==
    /\ time < Horizon /\ ~Busy /\ done = 0
    /\ time' = time + 1
    /\ Emit([e |-> "poll", at |-> time])
    /\ UNCHANGED <<cnt, el, prev, stale, last, pc, due, fin, done, val>>

Exit == /\ done = 0 /\ done' = 1 /\ UNCHANGED <<time, cnt, el, prev, stale, last, pc, due, fin, val, s, viol>>

Joined == /\ done = 1 /\ pc \in {"ended", "dead"} /\ done' = 2 /\ Emit([e |-> "over", at |-> time])
          /\ UNCHANGED <<time, cnt, el, prev, stale, last, pc, due, fin, val>>

Next == \/ \E k \in {"total", "running", "completed", "failed"}, sc \in Scopes : Note(k, sc)
        \/ Wake \/ Output \/ Tick \/ Exit \/ Joined
        \/ (done = 2 /\ UNCHANGED vars)

Sound == viol = {}
Progressing == done = 2 \/ ENABLED (Wake \/ Output \/ Tick \/ Exit \/ Joined)
=============================================================================
