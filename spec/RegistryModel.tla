--------------------------- MODULE RegistryModel ---------------------------
(***************************************************************************)
(* Design model of incremental runs, explored exhaustively for every plan  *)
(* with up to N nodes and every history.                                   *)
(*                                                                         *)
(* The design follows the implementation: a stale check that propagates    *)
(* modified times through the plan, a transformation that replaces every   *)
(* registered node by write/read/barrier nodes, pruning, and execution of  *)
(* the remaining nodes in any topological order, where any operation may   *)
(* fail (before or after it took effect), the run may end early, and the   *)
(* process may die.  Between runs sources change, stored values are        *)
(* deleted and fresh_time advances.                                        *)
(*                                                                         *)
(* The monitor of Registry.tla (declarative: no stale propagation, no      *)
(* physical plan) observes the same events that are recorded from the      *)
(* implementation; no clause may ever be violated.                         *)
(*                                                                         *)
(* Modified times are replaced by their ranks between runs, so that        *)
(* histories are unbounded and the state space is finite.                  *)
(***************************************************************************)
EXTENDS Registry, SequencesExt

CONSTANTS N,            \* number of nodes
          Sel,          \* selects the problems to be explored
          WriteDirect,  \* broken design: consumers take the in-memory value
          DepAfterCall, \* broken design: plain dependents wait for the call instead of the write
          NoPropagate,  \* broken design: staleness is not propagated downstream
          FreshSource   \* broken design: fresh_time also ages sources without stored ancestors

Nodes == 1..N
Pairs == {<<j, i>> \in Nodes \X Nodes : j < i}

Rel(p, j, i) == p.rel[<<j, i>>]
PredsOf(p, i) == {j \in Nodes : j < i /\ Rel(p, j, i) # "none"}
AncOf(p, i) == Closure([k \in Nodes |-> PredsOf(p, k)], PredsOf(p, i))

Writers(p, i) == {w \in PredsOf(p, i) : p.kind[w] = "call" /\ ~p.reg[w]}

Legal(p) ==
    /\ \A i \in Nodes : p.kind[i] = "src" => p.reg[i]
    /\ \A x \in Pairs : p.rel[x] = "arg" => p.kind[x[2]] = "call"
    \* a dependent source is updated by exactly one unregistered call, which nothing else uses
    /\ \A i \in Nodes : p.kind[i] = "src" /\ PredsOf(p, i) # {} =>
          \E w \in Writers(p, i) : /\ \A k \in Nodes : k > w /\ Rel(p, w, k) # "none" => k = i
                                   /\ (PredsOf(p, i) \ {w}) \subseteq AncOf(p, w)
                                   /\ Writers(p, i) = {w}

\* stores of plain dependencies, into which calls look
Peeks(p, i) == IF p.kind[i] # "call" THEN {}
               ELSE {j \in PredsOf(p, i) : p.reg[j] /\ Rel(p, j, i) = "dep"}
                    \cup {j \in Nodes : p.reg[j] /\ \E l \in PredsOf(p, i) : p.kind[l] = "lit" /\ ~p.reg[l] /\ j \in PredsOf(p, l)}

ToProblem(p) ==
    [ n |-> N, kind |-> p.kind, reg |-> p.reg, allout |-> {},
      args |-> [i \in Nodes |-> SetToSeq({[s |-> "n", q |-> <<j>>] : j \in {k \in Nodes : k < i /\ Rel(p, k, i) = "arg"}})
                               \o SetToSeq({[s |-> "p", q |-> <<j>>] : j \in Peeks(p, i)})],
      deps |-> [i \in Nodes |-> {j \in Nodes : j < i /\ Rel(p, j, i) = "dep"}],
      side |-> [w \in Nodes |->
                  IF p.kind[w] = "call" /\ ~p.reg[w] /\ \E i \in Nodes : i > w /\ Rel(p, w, i) = "dep" /\ p.kind[i] = "src"
                  THEN CHOOSE i \in Nodes : i > w /\ Rel(p, w, i) = "dep" /\ p.kind[i] = "src" ELSE 0] ]

\* every registered kind appears somewhere, so most of the interesting plans are among the selected ones
Interesting(p) ==
    CASE Sel = "all" -> TRUE
      [] Sel = "src" -> /\ \E i \in Nodes : p.kind[i] = "src"
                        /\ \E i \in Nodes : p.kind[i] = "call" /\ p.reg[i]
                        /\ \A i \in Nodes : \E x \in Pairs : i \in {x[1], x[2]} /\ p.rel[x] # "none"
      [] Sel = "dep" -> \E i \in Nodes : p.kind[i] = "src" /\ PredsOf(p, i) # {}
      [] Sel = "lit" -> /\ \E i \in Nodes : p.kind[i] = "lit" /\ PredsOf(p, i) # {}
                        /\ \E i \in Nodes : p.kind[i] = "src"
                        /\ \E i \in Nodes : p.kind[i] = "call" /\ p.reg[i]

Problems == SetToSeq({ToProblem(p) : p \in {q \in [kind : [Nodes -> {"call", "lit", "src"}], reg : [Nodes -> BOOLEAN],
                                                    rel : [Pairs -> {"none", "arg", "dep"}]] : Legal(q) /\ Interesting(q)}})
Statics == TLCEval([k \in 1..Len(Problems) |-> TLCEval(Static(Problems[k]))])

VARIABLES pid, s, eng, bad
vars == <<pid, s, eng, bad>>
C == Statics[pid]

---------------------------------------------------------------------------
\* The stale check of the implementation
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

StaleCheck(c, mt, fresh) ==
    LET R[i \in Nodes] ==
            IF ~NoPropagate /\ \E j \in c.preds[i] : R[j].stale THEN [stale |-> TRUE, t |-> 0]
            ELSE LET m == MaxOf({R[j].t : j \in c.preds[i]}) IN
                 IF i \notin c.reg THEN [stale |-> FALSE, t |-> m]
                 ELSE IF mt[i] = 0 THEN [stale |-> TRUE, t |-> 0]
                 ELSE IF (m # 0 \/ i \notin c.src \/ FreshSource) /\ MaxOf({mt[i], m, fresh}) > mt[i] THEN [stale |-> TRUE, t |-> 0]
                 ELSE [stale |-> FALSE, t |-> mt[i]]
    IN {i \in Nodes : R[i].stale}

---------------------------------------------------------------------------
\* The physical plan: nodes <<"n", i>>, <<"r", i>>, <<"w", i>> (a barrier for stale sources), <<"o", 0>>
From(c, st, j, k) ==
    IF j \notin c.reg THEN {<<"n", j>>}
    ELSE IF k = "arg" THEN (IF WriteDirect /\ j \in st /\ j \notin c.src THEN {<<"n", j>>} ELSE {<<"r", j>>})
    ELSE IF j \in st THEN (IF DepAfterCall /\ j \notin c.src THEN {<<"n", j>>} ELSE {<<"w", j>>}) ELSE {}

InPreds(c, st, i) == UNION {From(c, st, j, "arg") : j \in c.aset[i]} \cup UNION {From(c, st, j, "dep") : j \in c.deps[i]}

PhysNodes(c, st) == {<<"n", i>> : i \in Nodes} \cup {<<"r", i>> : i \in c.reg} \cup {<<"w", i>> : i \in st \cap c.reg} \cup {<<"o", 0>>}

PhysPreds(c, st, out) ==
    [x \in PhysNodes(c, st) |->
        CASE x[1] = "n" -> InPreds(c, st, x[2])
          [] x[1] = "r" -> IF x[2] \in st THEN {<<"w", x[2]>>} ELSE {}
          [] x[1] = "w" -> IF x[2] \in c.src THEN InPreds(c, st, x[2]) ELSE {<<"n", x[2]>>}
          [] OTHER -> UNION {From(c, st, j, "arg") : j \in out}]

IsCall(c, x) == x[1] = "r" \/ (x[1] = "w" /\ x[2] \notin c.src) \/ (x[1] = "n" /\ c.kind[x[2]] # "lit")

\* predecessors with literals (and barriers) skipped
RECURSIVE CallPreds(_, _, _)
CallPreds(c, pr, x) == UNION {IF IsCall(c, y) THEN {y} ELSE CallPreds(c, pr, y) : y \in pr[x]}

Plan0(c, st, out) ==
    LET pr == TLCEval(PhysPreds(c, st, out))
        req == {<<"w", i>> : i \in st \cap c.reg} \cup {<<"o", 0>>}
        keep == Closure(pr, req)
    IN [st |-> st, todo |-> {x \in keep : IsCall(c, x)},
        preds |-> [x \in {y \in keep : IsCall(c, y)} |-> CallPreds(c, pr, x)]]

---------------------------------------------------------------------------
Idle == [ on |-> FALSE, st |-> {}, todo |-> {}, preds |-> << >>, done |-> {}, failed |-> {}, x |-> 0, val |-> << >>, out |-> {} ]

RECURSIVE Feed(_, _, _)
Feed(c, m, q) == \* m = [s, bad]
    IF q = << >> THEN m
    ELSE Feed(c, [s |-> Apply(c, m.s, Head(q)), bad |-> m.bad \cup Clauses(c, m.s, Head(q))], Tail(q))

Norm(st) ==
    LET ranks == {st.mt[i] : i \in Nodes} \ {0}
        rank(t) == IF t = 0 THEN 0 ELSE Cardinality({u \in ranks : u <= t})
    IN [st EXCEPT !.mt = [i \in Nodes |-> rank(@[i])]]

Do(q, e) == LET m == Feed(C, [s |-> s, bad |-> bad], q) IN
            /\ s' = IF e.on THEN m.s ELSE Norm(m.s)
            /\ bad' = m.bad
            /\ eng' = e
            /\ UNCHANGED pid

Init == /\ pid \in 1..Len(Problems)
        /\ s = InitState(C)
        /\ eng = Idle
        /\ bad = {}

Now == MaxOf({s.mt[i] : i \in Nodes}) + 1

\* --- between runs
Toggle(i, v) == "s" \o ToString(i) \o (IF v = "s" \o ToString(i) \o "v0" THEN "v1" ELSE "v0")
Update == \E i \in C.src : /\ ~eng.on /\ C.writer[i] = 0
                           /\ Do(<<[e |-> "src", n |-> i, v |-> Toggle(i, s.content[i]), t |-> Now]>>, Idle)
Delete == \E i \in C.reg : /\ ~eng.on /\ s.mt[i] # 0 /\ (i \notin C.src \/ C.writer[i] # 0)
                           /\ Do(<<[e |-> "del", n |-> i]>>, Idle)

Outs == {{}} \cup {{i} : i \in Nodes \ {w \in Nodes : \E j \in Nodes : C.writer[j] = w}}
SourcesThere == \A i \in C.src : C.writer[i] = 0 => s.mt[i] # 0

BeginRun ==
    /\ ~eng.on /\ SourcesThere
    /\ \E out \in Outs, fresh \in {0} \cup {s.mt[i] + 1 : i \in Nodes} :
        LET st == StaleCheck(C, s.mt, fresh)
            pl == Plan0(C, st, out)
        IN Do(<<[e |-> "begin", out |-> IF out = {} THEN << >> ELSE <<[s |-> "n", q |-> SetToSeq(out)]>>, fresh |-> fresh, dry |-> FALSE,
                 phys |-> FALSE, tr |-> FALSE, W |-> 1, SW |-> 1, R |-> 1]>>,
              [Idle EXCEPT !.on = TRUE, !.st = st, !.todo = pl.todo, !.preds = pl.preds, !.out = out,
                           !.val = [x \in pl.todo |-> ""]])

\* --- during a run
Val(j, k) == IF j \in C.reg
             THEN (IF WriteDirect /\ k = "arg" /\ j \in eng.st /\ j \notin C.src
                   THEN (IF C.kind[j] = "lit" THEN LitVal(j) ELSE eng.val[<<"n", j>>]) ELSE eng.val[<<"r", j>>])
             ELSE IF C.kind[j] = "lit" THEN LitVal(j) ELSE eng.val[<<"n", j>>]
Code(x) == IF x[1] = "n" THEN "c" ELSE x[1]

Peek(j) == ReadBack(s.content[j])
Start(x) ==
    CASE x[1] = "n" -> [e |-> "cs", n |-> x[2], args |-> LET V(j) == Val(j, "arg") IN ArgVals(C, x[2], V, Peek)]
      [] x[1] = "r" -> [e |-> "rs", n |-> x[2]]
      [] x[1] = "w" -> [e |-> "ws", n |-> x[2], v |-> IF C.kind[x[2]] = "lit" THEN LitVal(x[2]) ELSE eng.val[<<"n", x[2]>>]]
EndEv(x) == CASE x[1] = "n" -> "ce" [] x[1] = "r" -> "re" [] x[1] = "w" -> "we"
Result(x) ==
    CASE x[1] = "n" -> LET V(j) == Val(j, "arg") IN CallVal(x[2], ArgVals(C, x[2], V, Peek))
      [] x[1] = "r" -> ReadBack(s.content[x[2]])
      [] OTHER -> ""
Effect(x) ==
    CASE x[1] = "w" -> <<[e |-> "wa", n |-> x[2], v |-> Start(x).v, t |-> Now]>>
      [] x[1] = "n" /\ C.side[x[2]] # 0 -> <<[e |-> "wa", n |-> C.side[x[2]], v |-> SideVal(Result(x)), t |-> Now]>>
      [] OTHER -> << >>
Missing(x) == x[1] = "r" /\ s.mt[x[2]] = 0        \* reading fails when nothing is stored
Ended(x, ok) == [e |-> EndEv(x), n |-> x[2], ok |-> ok, last |-> TRUE, x |-> IF ok THEN 0 ELSE 1, v |-> IF ok THEN Result(x) ELSE "",
                  inj |-> ~Missing(x)]

Ready == {x \in eng.todo \ (eng.done \cup eng.failed) : eng.preds[x] \subseteq eng.done}

Step == \E x \in Ready :
    /\ eng.on /\ ~(x[1] = "n" /\ C.kind[x[2]] = "src")
    /\ \/ ~Missing(x) /\ Do(<<Start(x)>> \o Effect(x) \o <<Ended(x, TRUE)>>,
                            [eng EXCEPT !.done = @ \cup {x}, !.val[x] = Result(x)])
       \/ Do(<<Start(x), Ended(x, FALSE)>>, [eng EXCEPT !.failed = @ \cup {x}])
       \/ Effect(x) # << >> /\ Do(<<Start(x)>> \o Effect(x) \o <<Ended(x, FALSE)>>, [eng EXCEPT !.failed = @ \cup {x}])
       \* the process dies during the operation
       \/ Do(<<Start(x), [e |-> "dead"]>>, Idle)
       \/ Effect(x) # << >> /\ Do(<<Start(x)>> \o Effect(x) \o <<[e |-> "dead"]>>, Idle)

Finish ==
    /\ eng.on
    /\ \/ /\ eng.todo = eng.done
          /\ Do(<<[e |-> "end", out |-> "value", live |-> 0, x |-> 0,
                   v |-> IF eng.out = {} THEN "" ELSE LET V(j) == Val(j, "arg") IN OutVal(s.run.out, V)]>>, Idle)
       \/ /\ eng.failed # {}
          /\ Do(<<[e |-> "end", out |-> "callerror", live |-> 0, x |-> 1, v |-> "",
                   who |-> LET x == CHOOSE x \in eng.failed : TRUE IN <<[c |-> Code(x), n |-> x[2]]>>]>>, Idle)
       \/ Do(<<[e |-> "dead"]>>, Idle)

\* executing the placeholder of a source would be an error
Placeholder == /\ eng.on /\ \E x \in Ready : x[1] = "n" /\ C.kind[x[2]] = "src"
               /\ bad' = bad \cup {"C03.placeholder"} /\ UNCHANGED <<pid, s, eng>>

Next == Update \/ Delete \/ BeginRun \/ Step \/ Finish \/ Placeholder

View == <<pid, [s EXCEPT !.run.att = << >>, !.run.fx = << >>], Range(s.run.att), eng, bad>>

Good == bad = {}
\* at rest, whatever a later run would take as up to date is correct
Repairable == ~eng.on => FreshCorrect(C, s)
\* the stale check of the design agrees with the declarative definition, for every fresh_time
StaleAgrees == ~eng.on /\ SourcesThere =>
                  \A fresh \in {0} \cup {s.mt[i] + 1 : i \in Nodes} : StaleCheck(C, s.mt, fresh) \cap C.reg = OutOfDate(C, s.mt, fresh)
=============================================================================
