---------------------------- MODULE ProgressModel ----------------------------
(***************************************************************************)
(* A design of the reporting: a stale phase that examines the calls of the *)
(* plan and a run phase that executes those needed, each with a pool of    *)
(* workers that bracket every call by notifications, which a composite     *)
(* forwards to its members one by one.  Every notification is checked with *)
(* the clauses of Progress.                                                *)
(***************************************************************************)
EXTENDS Progress

CONSTANTS N, K, W, R,
          TotalsLate, SilentFailure, ExitEarly, FirstOnly, PerAttempt, OldTotals    \* deliberately broken variants

\* call i has scope-id "stale|i" / "run|i"; calls 1 and 2 share theirs
Sc(sec, i) == sec \o "|" \o (IF i <= 2 THEN "a" ELSE ToString(i))
P == [K |-> K, key |-> [x \in {Sc(sec, i) : sec \in {"stale", "run"}, i \in 1..N} |-> x]]
Calls == 1..N

VARIABLES s, viol, phase, todo, act, done, fail, fwd, need

\* act: worker -> <<call, step, attempt>> or <<0, 0, 0>>;  fwd: <<notification kinds still to be forwarded, ...>> of the caller
vars == <<s, viol, phase, todo, act, done, fail, fwd, need>>

Members == IF FirstOnly THEN {1} ELSE 1..K

Emit(e) == /\ viol' = viol \cup Clauses(P, s, e) /\ s' = Apply(P, s, e)
\* one notification to all members at once is not how it works: the caller's notifications are forwarded in order
N1(m, k, sc, a) == [e |-> "note", m |-> m, k |-> k, sc |-> sc, a |-> a]

Init == /\ s = Start(P) /\ viol = {} /\ phase = "enter" /\ todo = Calls
        /\ act = [w \in 1..W |-> [c |-> 0, m |-> 0, k |-> "", a |-> 0]]
        /\ done = {} /\ fail \in SUBSET Calls /\ fwd = 1
        /\ need \in {Calls, 2..N}

\* the calling thread: enter, totals of the stale phase, (workers), totals of the run phase, (workers), exit, return
Scopes0(sec) == {Sc(sec, i) : i \in IF sec = "run" THEN need ELSE Calls}
Amount(sec, sc) == Cardinality({i \in (IF sec = "run" /\ ~OldTotals THEN need ELSE Calls) : Sc(sec, i) = sc})

Forward(k, sec, next) ==   \* the caller forwards notification k (for every scope of sec) to member fwd
    /\ IF k \in {"enter", "exit"}
       THEN /\ Emit(N1(fwd, k, "", 0))
            /\ IF fwd < K THEN fwd' = fwd + 1 /\ phase' = phase ELSE fwd' = 1 /\ phase' = next
       ELSE LET left == {sc \in Scopes0(sec) : Get(s.mem[fwd].total, sc) = 0} IN
            IF left # {} /\ fwd \in Members
            THEN /\ \E sc \in left : Emit(N1(fwd, "total", sc, Amount(sec, sc)))
                 /\ UNCHANGED <<fwd, phase>>
            ELSE /\ UNCHANGED <<s, viol>>
                 /\ IF fwd < K THEN fwd' = fwd + 1 /\ phase' = phase ELSE fwd' = 1 /\ phase' = next

Caller ==
    /\ UNCHANGED <<todo, act, done, fail, need>>
    /\ \/ phase = "enter" /\ Forward("enter", "", IF TotalsLate THEN "stale" ELSE "stale-totals")
       \/ phase = "stale-totals" /\ Forward("total", "stale", "stale")
       \/ phase = "run-totals" /\ s.hasPhys /\ Forward("total", "run", "run")
       \/ phase = "exit" /\ Forward("exit", "", "return")
       \/ /\ phase = "return" /\ phase' = "end"
          /\ Emit([e |-> "ret", out |-> IF done \cap fail # {} THEN "callerror" ELSE "value", dry |-> FALSE, strict |-> TRUE])
          /\ UNCHANGED fwd
       \/ /\ phase = "run-totals" /\ ~s.hasPhys
          /\ Emit([e |-> "phys", counts |-> [x \in Scopes0("run") |-> Cardinality({i \in need : Sc("run", i) = x})],
                   ops |-> Scopes0("run")])
          /\ UNCHANGED <<phase, fwd>>

Idle(w) == act[w].c = 0
Stop == phase = "run" /\ fail \cap done # {}
PhaseOver ==
    /\ phase \in {"stale", "run"}
    /\ \A w \in 1..W : Idle(w) \/ ExitEarly
    /\ todo = {} \/ Stop
    /\ phase' = (IF phase = "stale" THEN "run-totals" ELSE "exit")
    /\ todo' = need
    /\ done' = IF phase = "stale" THEN {} ELSE done
    /\ UNCHANGED <<s, viol, act, fail, fwd, need>>

Take(w) ==
    /\ phase \in {"stale", "run"} /\ Idle(w) /\ ~Stop
    /\ \E i \in todo :
        /\ todo' = todo \ {i}
        /\ act' = [act EXCEPT ![w] = [c |-> i, m |-> 1, k |-> "running", a |-> 1]]
    /\ UNCHANGED <<s, viol, phase, done, fail, fwd, need>>

Sec == IF phase = "stale" THEN "stale" ELSE "run"
Fails(i) == phase = "run" /\ i \in fail

Work(w) ==
    LET x == act[w] IN
    /\ ~Idle(w)
    /\ UNCHANGED <<phase, todo, fail, fwd, need>>
    /\ IF x.k \in {"running", "completed", "failed"}
       THEN \* forward to the next member
            /\ IF (x.k = "failed" /\ SilentFailure) \/ x.m \notin Members THEN UNCHANGED <<s, viol>>
               ELSE Emit(N1(x.m, x.k, Sc(Sec, x.c), 0))
            /\ IF x.m < K THEN act' = [act EXCEPT ![w].m = @ + 1] /\ UNCHANGED done
               ELSE IF x.k = "running" THEN act' = [act EXCEPT ![w].k = "start"] /\ UNCHANGED done
               ELSE act' = [act EXCEPT ![w] = [c |-> 0, m |-> 0, k |-> "", a |-> 0]] /\ done' = done \cup {x.c}
       ELSE IF x.k = "start"
       THEN /\ IF phase = "run" /\ x.a = 1 THEN Emit([e |-> "op", k |-> "start", key |-> Sc(Sec, x.c), ok |-> TRUE, last |-> TRUE])
               ELSE UNCHANGED <<s, viol>>
            /\ act' = [act EXCEPT ![w].k = "end"] /\ UNCHANGED done
       ELSE \* the attempt ends
            /\ IF phase = "run"
               THEN Emit([e |-> "op", k |-> "end", key |-> Sc(Sec, x.c), ok |-> ~Fails(x.c), last |-> x.a = R])
               ELSE UNCHANGED <<s, viol>>
            /\ act' = [act EXCEPT ![w] = IF Fails(x.c) /\ x.a < R
                          THEN [c |-> x.c, m |-> 1, k |-> IF PerAttempt THEN "running" ELSE "start", a |-> x.a + 1]
                          ELSE [c |-> x.c, m |-> 1, k |-> IF Fails(x.c) THEN "failed" ELSE "completed", a |-> x.a]]
            /\ UNCHANGED done

Next == Caller \/ PhaseOver \/ \E w \in 1..W : Take(w) \/ Work(w)

Clean == viol = {}
Ends == <>(phase = "end")
Spec == Init /\ [][Next]_vars
=============================================================================
