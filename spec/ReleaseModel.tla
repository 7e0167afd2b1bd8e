----------------------------- MODULE ReleaseModel -----------------------------
(***************************************************************************)
(* A design of the executor's memory: result slots, a record of slots per  *)
(* call that has not run yet (or while it runs), workers.  Tokens are the  *)
(* calls that make them; every call makes one and may also pass on what it *)
(* got.  What is reachable is compared with Release at every state in      *)
(* which the workers are at a call boundary.                               *)
(***************************************************************************)
EXTENDS Release

CONSTANTS N, W,
          KeepRecord, KeepFailed, KeepTable, KeepLast, DropEarly    \* deliberately broken variants

Nodes == 1..N
Graphs == {E \in SUBSET (Nodes \X Nodes) : \A x \in E : x[1] < x[2]}

VARIABLES s, viol, arcs, pass, out, fails, slot, rec, run, done, last, over, err
\* slot: call -> tokens in its result slot; rec: calls whose record exists; run: calls being run; last: tokens a worker still refers to
vars == <<s, viol, arcs, pass, out, fails, slot, rec, run, done, last, over, err>>

P == [cons |-> [n \in Nodes |-> {c \in Nodes : <<n, c>> \in arcs}], out |-> out]
Preds(n) == {m \in Nodes : <<m, n>> \in arcs}

Init == /\ arcs \in Graphs /\ pass \in SUBSET Nodes /\ out \in 0..N /\ fails \in SUBSET Nodes
        /\ s = Start /\ viol = {} /\ slot = [n \in Nodes |-> {}] /\ rec = Nodes /\ run = {} /\ done = {} /\ last = {} /\ over = FALSE /\ err = {}

Args(n) == UNION {slot[m] : m \in Preds(n)}

\* what can be reached: slots through the records of calls, through the output, through the frames of running calls and the first error
Reach == UNION {slot[m] : m \in {m \in Nodes : m = out \/ KeepTable \/ \E c \in rec : m \in Preds(c) \/ m = c}}
         \cup UNION {Args(n) : n \in run} \cup last \cup err

Emit(e) == viol' = viol \cup Clauses(P, s, e) /\ s' = Apply(P, s, e)

Begin(n) ==
    /\ ~over /\ n \notin run /\ n \notin done /\ n \in rec
    /\ Preds(n) \subseteq s.fin /\ Preds(n) \cap fails = {} /\ Cardinality(run) < W
    /\ run' = run \cup {n}
    /\ UNCHANGED <<s, viol, arcs, pass, out, fails, slot, rec, done, last, over, err>>

Finish(n) ==
    /\ ~over /\ n \in run /\ run' = run \ {n} /\ done' = done \cup {n}
    /\ IF n \in fails
       THEN /\ Emit([e |-> "end", n |-> n, ok |-> FALSE, has |-> Args(n)])
            /\ rec' = IF KeepRecord \/ KeepFailed THEN rec ELSE rec \ {n}
            /\ err' = IF err = {} THEN Args(n) ELSE err
            /\ UNCHANGED <<slot, last>>
       ELSE LET v == {n} \cup (IF n \in pass THEN Args(n) ELSE {}) IN
            /\ Emit([e |-> "end", n |-> n, ok |-> TRUE, has |-> v])
            /\ slot' = [m \in Nodes |-> IF m = n THEN v ELSE IF DropEarly /\ m \in Preds(n) /\ m # out THEN {} ELSE slot[m]]
            /\ rec' = IF KeepRecord THEN rec ELSE rec \ {n}
            /\ last' = IF KeepLast THEN v ELSE {}
            /\ UNCHANGED err
    /\ UNCHANGED <<arcs, pass, out, fails, over>>

\* a boundary: only in quiet states is liveness judged
Quiet == /\ ~over /\ Emit([e |-> "quiet", alive |-> Reach])
         /\ UNCHANGED <<arcs, pass, out, fails, slot, rec, run, done, last, over, err>>

Return ==
    /\ ~over /\ run = {} /\ ~ENABLED (\E n \in Nodes : Begin(n)) /\ over' = TRUE
    /\ Emit([e |-> "ret", ok |-> done \cap fails = {}, alive |-> IF done \cap fails = {} /\ out # 0 THEN slot[out] ELSE {}])
    /\ UNCHANGED <<arcs, pass, out, fails, slot, rec, run, done, last, err>>

Next == (\E n \in Nodes : Begin(n) \/ Finish(n)) \/ Quiet \/ Return \/ (over /\ UNCHANGED vars)

Sound == viol = {}
\* results are there as long as they are needed
Present == \A n \in run : \A m \in Preds(n) : m \in slot[m]
=============================================================================
