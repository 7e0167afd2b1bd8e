------------------------------ MODULE EvalModel ------------------------------
(***************************************************************************)
(* Design of expression evaluation: every structure that contains a node   *)
(* is lowered to gather operations on slots, a dict through the tuples of  *)
(* its items, and the operations are executed in any order that respects   *)
(* their inputs.  For all programs of a small grammar the outcome must be  *)
(* that of direct evaluation (Eval), and every function must receive the   *)
(* arguments that direct evaluation prescribes.                            *)
(*                                                                         *)
(* The same programs are written to PROGRAMS and executed by the           *)
(* implementation (campaign "generated").                                  *)
(***************************************************************************)
EXTENDS Eval, SequencesExt, Json, IOUtils

CONSTANTS BadDict,     \* broken design: keys and values of a dict are gathered separately, keys as a set
          BadConst     \* broken design: node-free arguments are rebuilt

Atoms(R) == {[t |-> "obj", id |-> "k1", key |-> "A"], [t |-> "obj", id |-> "k2", key |-> "A"]} \cup {[t |-> "node", n |-> i, j |-> 0] : i \in R}
Seqs(S) == {<< >>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
Pairs(S) == {<<a, b>> : a, b \in S}
\* container ids are distinct for every position in a program
Shallow(S, id) == {[t |-> t, id |-> id, q |-> q] : t \in {"list", "tuple"}, q \in Seqs(S)}
                  \cup {[t |-> "set", id |-> id, q |-> q] : q \in Seqs(S)}
                  \cup {[t |-> "dict", id |-> id, q |-> q] : q \in {<<a>> : a \in Pairs(S)} \cup {<<a, b>> : a, b \in Pairs(S)}}
Nested(S, id) == {[t |-> t, id |-> id, q |-> <<[t |-> u, id |-> id \o "i", q |-> <<a>>], b>>] : t \in {"list", "tuple"}, u \in {"list", "tuple", "set"}, a, b \in S}
Exprs(R, id) == Atoms(R) \cup Shallow(Atoms(R), id) \cup Nested(Atoms(R), id)

First == {[op |-> "call", pos |-> << >>, kw |-> << >>, res |-> [r |-> "fresh", key |-> "A"]],
          [op |-> "call", pos |-> <<[t |-> "obj", id |-> "k1", key |-> "A"]>>, kw |-> << >>, res |-> [r |-> "list"]],
          [op |-> "call", pos |-> << >>, kw |-> << >>, res |-> [r |-> "iter", k |-> 2]]}
Second(e) == {[op |-> "gather", x |-> e],
              [op |-> "call", pos |-> <<e, [t |-> "node", n |-> 1, j |-> 0]>>, kw |-> << >>, res |-> [r |-> "tuple"]],
              [op |-> "call", pos |-> << >>, kw |-> <<[k |-> "b", x |-> e], [k |-> "a", x |-> [t |-> "node", n |-> 1, j |-> 0]]>>, res |-> [r |-> "arg", k |-> 0]]}
              \cup (IF e.t \in {"list", "tuple"} THEN {[op |-> "unpack", x |-> e, n |-> Len(e.q)]} ELSE {})
              \cup (IF e.t = "node" THEN {[op |-> "unpack", x |-> e, n |-> k] : k \in 1..2} ELSE {})
Outs(second) ==
    IF second.op = "unpack" THEN {[t |-> "list", id |-> "out", q |-> [j \in 1..second.n |-> [t |-> "node", n |-> 2, j |-> j]]]}
    ELSE {[t |-> "node", n |-> 2, j |-> 0],
          [t |-> "set", id |-> "out", q |-> <<[t |-> "node", n |-> 1, j |-> 0], [t |-> "node", n |-> 2, j |-> 0]>>],
          [t |-> "dict", id |-> "out", q |-> <<<<[t |-> "node", n |-> 1, j |-> 0], [t |-> "node", n |-> 2, j |-> 0]>>,
                                               <<[t |-> "node", n |-> 2, j |-> 0], [t |-> "node", n |-> 1, j |-> 0]>>>>]}

Programs == TLCEval(SetToSeq({[nodes |-> <<a, b>>, out |-> o] :
                a \in First, b \in UNION {Second(e) : e \in Exprs({1}, "k3")},
                o \in UNION {Outs(s) : s \in UNION {Second(e) : e \in {[t |-> "node", n |-> 1, j |-> 0]}}}}))
\* only the outputs that fit the second node
Fits(p) == p.nodes[2].op # "unpack" <=> ~(p.out.t = "list")
Fits2(p) == Fits(p) /\ (p.nodes[2].op = "unpack" => Len(p.out.q) = p.nodes[2].n)
Progs == TLCEval(SelectSeq(Programs, Fits2))
Evals == TLCEval([i \in 1..Len(Progs) |-> TLCEval(Eval(Progs[i]))])

Export == IF "PROGRAMS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.PROGRAMS, Progs) ELSE TRUE
ASSUME Export

---------------------------------------------------------------------------
\* Lowering: m = [ops, ref]; ops are [f, ins, call]; a reference is a constant or the result of an operation
Ref(op, j) == [c |-> FALSE, s |-> op, j |-> j]
ConstRef(v) == [c |-> TRUE, v |-> v]

RECURSIVE Lower(_, _, _, _), LowerAll(_, _, _, _)
LowerAll(q, ops, at, top) ==
    IF q = << >> THEN [ops |-> ops, refs |-> << >>]
    ELSE LET m == Lower(Head(q), ops, at, top)
             rest == LowerAll(Tail(q), m.ops, at, top)
         IN [ops |-> rest.ops, refs |-> <<m.ref>> \o rest.refs]
Lower(x, ops, at, top) ==
    CASE x.t = "node" -> [ops |-> ops, ref |-> Ref(at[x.n], x.j)]
      [] ~HasNode(x) -> [ops |-> ops, ref |-> ConstRef(IF top /\ ~BadConst THEN Const(x) ELSE Loose(Const(x)))]
      [] x.t = "dict" ->
            LET d == Display(x)
                items == IF BadDict
                         THEN LowerAll(<<[t |-> "set", id |-> "", q |-> [k \in 1..Len(d) |-> d[k][1]]],
                                         [t |-> "list", id |-> "", q |-> [k \in 1..Len(d) |-> d[k][2]]]>>, ops, at, FALSE)
                         ELSE LowerAll([k \in 1..Len(d) |-> [t |-> "tuple", id |-> "", q |-> d[k]]], ops, at, FALSE)
            IN [ops |-> Append(items.ops, [f |-> "dict", ins |-> items.refs, i |-> 0]), ref |-> Ref(Len(items.ops) + 1, 0)]
      [] OTHER ->
            LET items == LowerAll(x.q, ops, at, FALSE)
            IN [ops |-> Append(items.ops, [f |-> x.t, ins |-> items.refs, i |-> 0]), ref |-> Ref(Len(items.ops) + 1, 0)]

\* at[i]: the operation that yields node i
RECURSIVE LowerNodes(_, _, _, _)
LowerNodes(nodes, i, ops, at) ==
    IF i > Len(nodes) THEN [ops |-> ops, at |-> at]
    ELSE LET x == nodes[i] IN
         IF x.op = "gather"
         THEN LET m == Lower(x.x, ops, at, TRUE)
                  ops2 == Append(m.ops, [f |-> "same", ins |-> <<m.ref>>, i |-> i])
              IN LowerNodes(nodes, i + 1, ops2, Append(at, Len(ops2)))
         ELSE LET q == IF x.op = "unpack" THEN <<x.x>> ELSE x.pos \o [k \in 1..Len(x.kw) |-> x.kw[k].x]
                  m == LowerAll(q, ops, at, TRUE)
                  ops2 == Append(m.ops, [f |-> x.op, ins |-> m.refs, i |-> i])
              IN LowerNodes(nodes, i + 1, ops2, Append(at, Len(ops2)))

Compile(p) == LET m == LowerNodes(p.nodes, 1, << >>, << >>)
                  o == Lower(p.out, m.ops, m.at, FALSE)
              IN [ops |-> o.ops, out |-> o.ref, at |-> m.at]
Code == TLCEval([i \in 1..Len(Progs) |-> TLCEval(Compile(Progs[i]))])

---------------------------------------------------------------------------
VARIABLES pid, slot, bad     \* slot: op -> value, for the operations that have been executed
vars == <<pid, slot, bad>>

Get(ref) == IF ref.c THEN ref.v ELSE Item(slot[ref.s], ref.j)
Ins(o) == [k \in 1..Len(o.ins) |-> Get(o.ins[k])]

Exec(o) ==
    LET a == Ins(o)
        p == Progs[pid]
    IN IF \E k \in 1..Len(a) : a[k].t = "err" THEN Err
       ELSE CASE o.f = "same" -> a[1]
              [] o.f \in {"list", "tuple"} -> [t |-> o.f, id |-> "", q |-> a]
              [] o.f = "set" -> IF \E k \in 1..Len(a) : Key(a[k]) = "" THEN Err ELSE [t |-> "set", id |-> "", q |-> Distinct(a, << >>)]
              [] o.f = "dict" ->
                    IF BadDict THEN (IF Len(a[1].q) # Len(a[2].q) THEN Err
                                     ELSE [t |-> "dict", id |-> "", q |-> [k \in 1..Len(a[1].q) |-> <<a[1].q[k], a[2].q[k]>>]])
                    ELSE IF \E k \in 1..Len(a) : Key(a[k].q[1]) = "" THEN Err
                    ELSE [t |-> "dict", id |-> "", q |-> Dict([k \in 1..Len(a) |-> a[k].q])]
              [] o.f = "unpack" -> IF Len(Items(a[1])) = p.nodes[o.i].n /\ (\A k \in 1..Len(Items(a[1])) : Items(a[1])[k].t # "err")
                                   THEN [t |-> "tuple", id |-> "", q |-> Items(a[1])] ELSE Err
              [] OTHER -> Result(o.i, p.nodes[o.i].res, a)

Args(o) == LET p == Progs[pid]
               a == Ins(o)
               n == Len(p.nodes[o.i].pos)
           IN Clauses([p |-> p, V |-> Evals[pid]],
                      [e |-> "call", n |-> o.i, pos |-> SubSeq(a, 1, n),
                       kw |-> [k \in 1..Len(p.nodes[o.i].kw) |-> [k |-> p.nodes[o.i].kw[k].k, x |-> a[n + k]]]])

Init == pid \in 1..Len(Progs) /\ slot = << >> /\ bad = {}

Next == \E k \in 1..Len(Code[pid].ops) :
    LET o == Code[pid].ops[k] IN
    /\ k \notin DOMAIN slot
    /\ {o.ins[m].s : m \in {m \in 1..Len(o.ins) : ~o.ins[m].c}} \subseteq DOMAIN slot
    /\ slot' = (k :> Exec(o)) @@ slot
    /\ bad' = IF o.f = "call" /\ \A m \in 1..Len(o.ins) : Get(o.ins[m]).t # "err" THEN bad \cup Args(o) ELSE bad
    /\ UNCHANGED pid

Finished == DOMAIN slot = 1..Len(Code[pid].ops)
Good == bad = {}
Right == Finished =>
    LET p == Progs[pid]
        failed == \E k \in DOMAIN slot : slot[k].t = "err"
    IN Clauses([p |-> p, V |-> Evals[pid]],
               IF failed THEN [e |-> "raise"] ELSE [e |-> "value", v |-> Get(Code[pid].out)]) = {}
=============================================================================
