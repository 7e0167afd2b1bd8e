------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Incremental runs: a plan whose nodes may have value stores, a history   *)
(* of runs (successful, failing, cut, dry) and of changes made between     *)
(* runs (source updates, deletions, fresh_time).                           *)
(*                                                                         *)
(* A problem is a record                                                   *)
(*   n     number of nodes, numbered in topological order                  *)
(*   kind  <<"call" | "lit" | "src", ...>>                                 *)
(*   args  <<sequence of [s: "n"|"l"|"p", q: node ids], ...>>  arguments:  *)
(*         a node, or a list containing nodes; "p" is not an argument but  *)
(*         a store of a dependency, direct or not, into which the call     *)
(*         looks for itself, without uberjob's help                        *)
(*   deps  <<{nodes}, ...>>    plain dependencies                          *)
(*   reg   <<BOOLEAN, ...>>    has a value store (always for src)          *)
(*   side  <<0 | node, ...>>   call i writes the store of source side[i]   *)
(*                                                                         *)
(* Values are strings.  f_i applied to a, b is "fi(a,b)"; reading a store  *)
(* that contains v yields "r(v)" (stores normalise, so that an in-memory   *)
(* value can be told from a read-back one).  Times are integers, 0 means   *)
(* that nothing is stored; every write gets a new time.                    *)
(*                                                                         *)
(* As in Run, Clauses(c, s, e) are the named clauses violated by event e   *)
(* in state s.                                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Range(q) == {q[k] : k \in 1..Len(q)}
ArgSet(p, i) == UNION {IF p.args[i][k].s = "p" THEN {} ELSE Range(p.args[i][k].q) : k \in 1..Len(p.args[i])}

RECURSIVE Closure(_, _)
Closure(pr, S) == LET U == S \cup UNION {pr[i] : i \in S} IN IF U = S THEN S ELSE Closure(pr, U)

Static(p) ==
    LET N == 1..p.n
        preds == TLCEval([i \in N |-> ArgSet(p, i) \cup p.deps[i]])
    IN [ n |-> p.n, kind |-> p.kind, args |-> p.args, deps |-> p.deps, side |-> p.side,
         aset |-> [i \in N |-> ArgSet(p, i)],
         preds |-> preds,
         anc |-> [i \in N |-> Closure(preds, preds[i])],
         reg |-> {i \in N : p.reg[i]},
         src |-> {i \in N : p.kind[i] = "src"},
         calls |-> {i \in N : p.kind[i] = "call"},
         cyc |-> \E i \in N : i \in Closure(preds, preds[i]),
         cycreg |-> \E i \in Closure(preds, {i \in N : p.reg[i]} \cup p.allout) : i \in Closure(preds, preds[i]),
         writer |-> [i \in N |-> IF \E w \in N : p.side[w] = i THEN CHOOSE w \in N : p.side[w] = i ELSE 0] ]

Stored(c) == c.reg \ c.src        \* value stores that runs write

---------------------------------------------------------------------------
\* From-scratch evaluation: Raw(c, content)[i] is what is (or would be) stored for i, or the value of i.
ReadBack(v) == "r(" \o v \o ")"

RECURSIVE Commas(_, _)
Commas(q, k) == IF k > Len(q) THEN "" ELSE (IF k = 1 THEN "" ELSE ",") \o q[k] \o Commas(q, k + 1)
ListVal(q) == "[" \o Commas(q, 1) \o "]"

ArgVals(c, i, V(_), P(_)) ==
    [k \in 1..Len(c.args[i]) |->
        LET a == c.args[i][k] IN
        IF a.s = "p" THEN P(a.q[1]) ELSE IF a.s = "n" THEN V(a.q[1]) ELSE ListVal([m \in 1..Len(a.q) |-> V(a.q[m])])]

CallVal(i, vals) == "f" \o ToString(i) \o "(" \o Commas(vals, 1) \o ")"
LitVal(i) == "l" \o ToString(i)
SideVal(v) == "w" \o v

Raw(c, content) ==
    LET R[i \in 1..c.n] ==
            CASE i \in c.src -> IF c.writer[i] = 0 THEN content[i] ELSE SideVal(R[c.writer[i]])
              [] c.kind[i] = "lit" -> LitVal(i)
              [] OTHER -> LET V(j) == IF j \in c.reg THEN ReadBack(R[j]) ELSE R[j]
                          IN CallVal(i, ArgVals(c, i, V, V))
    IN R

ScratchValue(c, raw, i) == IF i \in c.reg THEN ReadBack(raw[i]) ELSE raw[i]

---------------------------------------------------------------------------
\* Which stored values are out of date (fresh = 0: no fresh_time given).
\* A source without stored ancestors is only out of date when it is missing: fresh_time does not age it.
RegAnc(c, i) == c.anc[i] \cap c.reg

RECURSIVE OutOfDateSet(_, _, _, _)
OutOfDateSet(c, mt, fresh, D) ==
    LET X == {i \in c.reg :
                \/ mt[i] = 0
                \/ RegAnc(c, i) \cap D # {}
                \/ \E j \in RegAnc(c, i) : mt[j] > mt[i]
                \/ fresh > mt[i] /\ (i \notin c.src \/ RegAnc(c, i) # {}) }
    IN IF X = D THEN D ELSE OutOfDateSet(c, mt, fresh, X)
OutOfDate(c, mt, fresh) == OutOfDateSet(c, mt, fresh, {})

---------------------------------------------------------------------------
\* What a run has to do, given the out-of-date set D and the requested nodes.
\* Nodes whose value or completion is needed in this run; up-to-date stored nodes are only read.
RECURSIVE NeedClosure(_, _, _)
NeedClosure(c, D, S) ==
    LET pull(i) == {j \in c.preds[i] : j \notin c.reg \/ j \in D}
        U == S \cup UNION {pull(i) : i \in S}
    IN IF U = S THEN S ELSE NeedClosure(c, D, U)
Needed(c, D, out) == NeedClosure(c, D, D \cup {i \in out : i \notin c.reg})

ExecCalls(c, D, out) == Needed(c, D, out) \cap c.calls
Writes(c, D) == D \ c.src
Reads(c, D, out) == c.reg \cap (out \cup UNION {c.aset[i] : i \in ExecCalls(c, D, out)})

\* The effective ancestors of i in a run: dependencies that are not cut off by an up-to-date stored value.
EffPreds(c, D) == [i \in 1..c.n |-> {j \in c.preds[i] : j \notin c.reg \/ j \in D}]
EffAnc(c, D, i) == LET pr == EffPreds(c, D) IN Closure(pr, pr[i])

\* The calls and store operations that the evaluation of i in a run depends on.
RECURSIVE Before(_, _, _)
Before(c, D, i) ==
    LET self(j) == (IF j \in c.calls THEN {<<"c", j>>} ELSE {}) \cup Before(c, D, j)
        written(j) == IF j \notin D THEN {} ELSE IF j \in c.src THEN Before(c, D, j) ELSE {<<"w", j>>} \cup self(j)
        asarg(j) == IF j \in c.reg THEN {<<"r", j>>} \cup written(j) ELSE self(j)
        asdep(j) == IF j \in c.reg THEN written(j) ELSE self(j)
    IN UNION {asarg(j) : j \in c.aset[i]} \cup UNION {asdep(j) : j \in c.deps[i]}

---------------------------------------------------------------------------
NoRun == [ active |-> FALSE, dry |-> FALSE, phys |-> FALSE, D |-> {}, E |-> {}, Rd |-> {}, Wr |-> {}, out |-> << >>, fresh |-> 0,
           W |-> 0, SW |-> 0, R |-> 1, okc |-> {}, rdone |-> {}, wdone |-> {}, val |-> << >>, rv |-> << >>,
           busy |-> {}, qbusy |-> {}, tr |-> FALSE, xc |-> 0, att |-> << >>, okops |-> {}, failed |-> {}, fx |-> << >>, intr |-> FALSE ]

InitState(c) == [ content |-> [i \in 1..c.n |-> ""], mt |-> [i \in 1..c.n |-> 0],
                  raw |-> IF c.cyc THEN << >> ELSE Raw(c, [i \in 1..c.n |-> ""]), done |-> {}, run |-> NoRun,
                  cut |-> FALSE ]         \* a run has been cut short since the last one that succeeded

OutSet(q) == UNION {Range(q[k].q) : k \in 1..Len(q)}
Viol(b, name) == IF b THEN {} ELSE {name}

Att(r, op) == Cardinality({k \in 1..Len(r.att) : r.att[k] = op})

\* i has finished, as far as nodes that merely depend on it are concerned
RECURSIVE Finished(_, _, _)
Finished(c, r, i) ==
    IF i \in c.reg THEN
        IF i \notin r.D THEN TRUE
        ELSE IF i \in c.src THEN \A j \in c.preds[i] : Finished(c, r, j)
        ELSE i \in r.wdone
    ELSE IF i \in c.calls THEN i \in r.okc
    ELSE \A j \in c.preds[i] : Finished(c, r, j)

Observed(c, r, j) == IF j \in c.reg THEN (IF j \in r.rdone THEN r.rv[j] ELSE "?")
                     ELSE IF j \in c.calls THEN (IF j \in r.okc THEN r.val[j] ELSE "?")
                     ELSE LitVal(j)

OutVal(q, V(_)) == ListVal([k \in 1..Len(q) |-> IF q[k].s = "n" THEN V(q[k].q[1])
                                                ELSE ListVal([m \in 1..Len(q[k].q) |-> V(q[k].q[m])])])

OpClauses(c, s, op) ==
    LET r == s.run IN
    Viol(r.active, "C07.after-return")
    \cup Viol(~r.dry, "C14.dry-untouched")
    \cup Viol(Cardinality(r.busy) + 1 <= r.W, "C10.workers")
    \cup Viol(Att(r, op) < r.R, "C10.retry-max")
    \cup Viol(op \notin r.okops, "C10.retry-after-success")
    \cup Viol(op \notin r.busy, "C10.retry-overlap")
    \cup Viol(Att(r, op) = 0 \/ op \notin r.okops, "C04.once")
    \cup Viol(~r.intr \/ Att(r, op) > 0, "C17.start-after-interrupt")

StartCall(c, s, e) ==
    LET r == s.run
        n == e.n
        op == <<"c", n>>
        V(j) == Observed(c, r, j)
        P(j) == ReadBack(s.content[j])
    IN OpClauses(c, s, op)
       \cup Viol(n \in r.E, "C05.call-not-needed")
       \cup Viol(op \notin r.okops, "C05.call-once")
       \cup Viol((EffAnc(c, r.D, n) \cap c.calls) \subseteq r.okc, "C01.deps")
       \cup Viol(r.failed = {} \/ Before(c, r.D, n) \cap r.failed = {}, "C06.downstream")
       \cup Viol((c.aset[n] \cap c.reg) \subseteq r.rdone, "C09.read-before-use")
       \cup Viol(\A j \in c.preds[n] : Finished(c, r, j), "C09.after-write")
       \cup Viol(e.args = ArgVals(c, n, V, P), "C09.value")

StartRead(c, s, e) ==
    LET r == s.run
        op == <<"r", e.n>>
    IN OpClauses(c, s, op)
       \cup Viol(e.n \in r.Rd, "C05.read-not-needed")
       \cup Viol(op \notin r.okops, "C05.read-once")
       \cup Viol(e.n \notin r.D \/ e.n \in c.src \/ e.n \in r.wdone, "C09.read-after-write")
       \cup Viol(e.n \notin r.D \/ e.n \notin c.src \/ \A j \in c.preds[e.n] : Finished(c, r, j), "C09.source-after-deps")

StartWrite(c, s, e) ==
    LET r == s.run
        n == e.n
        op == <<"w", n>>
    IN OpClauses(c, s, op)
       \cup Viol(n \in r.Wr, "C05.write-not-needed")
       \cup Viol(op \notin r.okops, "C05.write-once")
       \cup Viol(n \notin s.done, "C08.rewritten")
       \cup Viol(IF n \in c.calls THEN n \in r.okc ELSE \A j \in c.preds[n] : Finished(c, r, j), "C09.write-after-call")
       \cup Viol((RegAnc(c, n) \cap r.Wr) \subseteq r.wdone, "C09.rebuild-order")
       \cup Viol(e.v = (IF n \in c.calls THEN (IF n \in r.okc THEN r.val[n] ELSE "?") ELSE LitVal(n)), "C09.write-value")

\* Everything that a later run would take as up to date is correct.
FreshCorrect(c, s) ==
    LET D == OutOfDate(c, s.mt, 0) IN \A i \in Stored(c) \ D : s.content[i] = s.raw[i]

EndClauses(c, s, e) ==
    LET r == s.run
        VO(j) == Observed(c, r, j)
        VS(j) == ScratchValue(c, s.raw, j)
        \* what the run returns, given the value of the output as requested: a transform_physical (run.tr) wraps it
        Final(v) == IF r.out = << >> THEN "" ELSE IF r.tr THEN "T(" \o v \o ")" ELSE v
    IN
    Viol(r.active, "M.end-without-run")
    \cup Viol(r.busy = {} /\ r.qbusy = {}, "C07.running-at-return")
    \cup Viol(e.live = 0, "C07.threads-at-return")
    \cup (IF r.intr THEN Viol(r.busy = {} /\ r.qbusy = {} /\ e.live = 0, "C17.cleanup") \cup Viol(e.out = "ki", "C17.propagate") ELSE {})
    \cup Viol(e.out # "cycle", "C07.cycle")
    \cup (CASE e.out = "value" /\ r.dry -> Viol(r.failed = {}, "C06.raise")
            [] e.out = "value" ->
                 Viol(r.failed = {}, "C06.raise")
                 \cup Viol(~r.phys \/ r.xc = (IF r.tr THEN 1 ELSE 0), "C14.transformed")
                 \cup Viol(r.E \subseteq r.okc, "C05.call-missing")
                 \cup Viol(r.Rd \subseteq r.rdone, "C05.read-missing")
                 \cup Viol(r.Wr \subseteq r.wdone, "C05.write-missing")
                 \cup Viol(\A i \in Stored(c) : s.content[i] = s.raw[i], "C03.stored")
                 \cup Viol(e.v = Final(OutVal(r.out, VS)), "C03.output")
                 \cup Viol(~s.cut \/ \A i \in Stored(c) : s.content[i] = s.raw[i], "C08.repaired")
                 \cup Viol(~s.cut \/ e.v = Final(OutVal(r.out, VS)), "C08.output")
                 \cup Viol(e.v = Final(OutVal(r.out, VO)), "C09.output")
            [] e.out = "callerror" -> 
                 Viol(\E k \in 1..Len(r.fx) : r.fx[k].x = e.x, "C06.cause")
                 \cup Viol(\E k \in 1..Len(r.fx) : r.fx[k].x = e.x /\ \E m \in 1..Len(e.who) : r.fx[k].op = <<e.who[m].c, e.who[m].n>>, "C06.call")
                 \cup Viol(r.W > 1 \/ r.SW > 1 \/ r.fx = << >> \/ r.fx[1].x = e.x, "C06.first")
            [] e.out = "ki" -> Viol(r.intr, "C06.type")
            [] e.out = "cycle" -> {}
            [] OTHER -> Viol(FALSE, "C03.error") \cup Viol(FALSE, "C05.error") \cup Viol(~s.cut, "C08.error"))

QueryClauses(c, s, e) ==
    LET r == s.run
        op == <<"q", e.n>>
    IN Viol(r.active, "C07.after-return")
       \cup Viol(Cardinality(r.qbusy) + 1 <= r.SW, "C10.stale-workers")
       \cup Viol(Att(r, op) < r.R, "C10.retry-max")
       \cup Viol(op \notin r.okops, "C10.retry-after-success")

\* Nothing fails of itself, whatever faults there have been before.
OwnFailure(e) == Viol(e.ok \/ e.inj, "C08.operation-failed") \cup Viol(e.ok \/ e.inj, "C03.operation-failed")

\* In a run of a physical plan the same events are expected; whatever differs is the dry run's fault.
Faithful(s, v) ==
    IF s.run.phys
    THEN LET bad == {x \in v : x \notin {"C10.workers", "C10.retry-max", "C10.retry-after-success", "M.begin"}}
         IN (v \ bad) \cup (IF bad = {} THEN {} ELSE {"C14.faithful"})
    ELSE v

---------------------------------------------------------------------------
\* Effects
PutAtt(r, op) == [r EXCEPT !.att = Append(@, op), !.busy = @ \cup {op}]
EndOp(r, op, ok, last, x) ==
    LET r1 == [r EXCEPT !.busy = @ \ {op}] IN
    IF ok THEN [r1 EXCEPT !.okops = @ \cup {op}]
    ELSE IF last THEN [r1 EXCEPT !.failed = @ \cup {op}, !.fx = Append(@, [op |-> op, x |-> x])]
    ELSE r1

Begin(c, s, e) ==
    LET D == OutOfDate(c, s.mt, e.fresh)
        out == OutSet(e.out)
    IN [s EXCEPT !.run = [NoRun EXCEPT !.active = TRUE, !.dry = e.dry, !.phys = e.phys, !.D = D, !.E = ExecCalls(c, D, out),
                                       !.Rd = Reads(c, D, out), !.Wr = Writes(c, D), !.out = e.out, !.fresh = e.fresh,
                                       !.tr = e.tr, !.W = e.W, !.SW = e.SW, !.R = e.R,
                                       !.val = [i \in 1..c.n |-> ""], !.rv = [i \in 1..c.n |-> ""]],
                 \* a fresh_time later than the write justifies rewriting
                 !.done = LET old == {j \in c.reg : e.fresh > s.mt[j] /\ (j \notin c.src \/ RegAnc(c, j) # {})}
                          IN {i \in @ : ({i} \cup RegAnc(c, i)) \cap old = {}}]

Below(c, i) == {j \in 1..c.n : i \in c.anc[j]}

Apply(c, s, e) ==
    CASE c.cyc -> s
      [] e.e = "src" -> [s EXCEPT !.content[e.n] = e.v, !.mt[e.n] = e.t,
                                  !.raw = Raw(c, [s.content EXCEPT ![e.n] = e.v]),
                                  !.done = @ \ (Below(c, e.n) \cup {e.n})]
      [] e.e = "del" -> [s EXCEPT !.content[e.n] = "", !.mt[e.n] = 0, !.done = @ \ (Below(c, e.n) \cup {e.n})]
      [] e.e = "begin" -> Begin(c, s, e)
      [] e.e = "q" -> [s EXCEPT !.run.att = Append(@, <<"q", e.n>>), !.run.qbusy = @ \cup {e.n}]
      [] e.e = "qe" -> [s EXCEPT !.run = [@ EXCEPT !.qbusy = @ \ {e.n},
                                                   !.okops = IF e.ok THEN @ \cup {<<"q", e.n>>} ELSE @,
                                                   !.failed = IF ~e.ok /\ e.last THEN @ \cup {<<"q", e.n>>} ELSE @,
                                                   !.fx = IF ~e.ok /\ e.last THEN Append(@, [op |-> <<"q", e.n>>, x |-> e.x]) ELSE @]]
      [] e.e = "cs" -> [s EXCEPT !.run = PutAtt(@, <<"c", e.n>>)]
      [] e.e = "ce" -> LET r == EndOp(s.run, <<"c", e.n>>, e.ok, e.last, e.x)
                       IN [s EXCEPT !.run = IF e.ok THEN [r EXCEPT !.okc = @ \cup {e.n}, !.val[e.n] = e.v] ELSE r]
      [] e.e = "rs" -> [s EXCEPT !.run = PutAtt(@, <<"r", e.n>>)]
      [] e.e = "re" -> LET r == EndOp(s.run, <<"r", e.n>>, e.ok, e.last, e.x)
                       IN [s EXCEPT !.run = IF e.ok THEN [r EXCEPT !.rdone = @ \cup {e.n}, !.rv[e.n] = e.v] ELSE r]
      [] e.e = "ws" -> [s EXCEPT !.run = PutAtt(@, <<"w", e.n>>)]
      [] e.e = "wa" -> [s EXCEPT !.content[e.n] = e.v, !.mt[e.n] = e.t]   \* the store's content changes
      [] e.e = "we" -> LET r == EndOp(s.run, <<"w", e.n>>, e.ok, e.last, e.x)
                       IN [s EXCEPT !.run = IF e.ok THEN [r EXCEPT !.wdone = @ \cup {e.n}] ELSE r,
                                    !.done = IF e.ok THEN @ \cup {e.n} ELSE @]
      [] e.e = "xc" -> [s EXCEPT !.run.xc = @ + 1]             \* the call that transform_physical adds is executed
      [] e.e = "intr" -> [s EXCEPT !.run.intr = TRUE]
      [] e.e = "end" -> [s EXCEPT !.run.active = FALSE, !.cut = IF e.out # "value" THEN TRUE ELSE IF s.run.dry THEN @ ELSE FALSE]
      [] e.e = "dead" -> [s EXCEPT !.run = NoRun, !.cut = TRUE]
      [] OTHER -> s

CyclicClauses(c, s, e) ==
    CASE e.e \in {"q", "cs", "rs", "ws"} -> {"C07.cycle-before-access"}
      [] e.e = "end" -> Viol(~c.cycreg \/ e.out = "cycle", "C07.cycle")
      [] e.e = "hang" -> {"C07.hang"}
      [] OTHER -> {}

Clauses(c, s, e) ==
    IF c.cyc THEN CyclicClauses(c, s, e) ELSE
    Faithful(s,
      CASE e.e = "q" -> QueryClauses(c, s, e)
        [] e.e = "cs" -> StartCall(c, s, e)
        [] e.e = "rs" -> StartRead(c, s, e)
        [] e.e = "ws" -> StartWrite(c, s, e)
        [] e.e = "re" -> Viol(~e.ok \/ e.v = ReadBack(s.content[e.n]), "C03.read") \cup Viol(s.run.active, "C07.after-return")
                         \cup Viol(~e.ok \/ e.v = ReadBack(s.content[e.n]), "C08.read") \cup OwnFailure(e)
        [] e.e \in {"we", "qe"} -> OwnFailure(e)
        [] e.e = "wa" -> LET s1 == Apply(c, s, e) IN Viol(FreshCorrect(c, s1), "C08.fresh-correct")
        [] e.e = "xc" -> Viol(s.run.active, "C07.after-return") \cup Viol(~s.run.dry, "C14.dry-untouched") \cup Viol(s.run.tr, "M.transform")
        [] e.e = "begin" -> Viol(~s.run.active, "M.begin")
        [] e.e = "end" -> EndClauses(c, s, e)
        [] e.e = "hang" -> {"C07.hang"} \cup (IF s.run.intr THEN {"C17.hang"} ELSE {})
        [] e.e = "died" -> {"C07.worker-died"}
        [] OTHER -> {})
=============================================================================
