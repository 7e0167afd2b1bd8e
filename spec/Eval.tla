-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Direct evaluation of symbolic programs (C02).                           *)
(*                                                                         *)
(* A program is [nodes |-> <<...>>, out |-> expression or "none"].         *)
(* Node i may refer to nodes 1..i-1:                                       *)
(*   [op |-> "lit", x |-> E]                 plan.lit(E), E used as is     *)
(*   [op |-> "gather", x |-> E]              plan.gather(E)                *)
(*   [op |-> "unpack", x |-> E, n |-> k]     plan.unpack(E, k)             *)
(*   [op |-> "call", pos |-> <<E>>, kw |-> <<[k |-> name, x |-> E]>>,      *)
(*    res |-> R]                             plan.call(f_i, ...)           *)
(* Expressions E:                                                          *)
(*   [t |-> "obj", id, key]                  an opaque object              *)
(*   [t |-> "node", n, j]                    node n, or the j-th (from 1)  *)
(*                                           symbolic item of an unpack    *)
(*   [t |-> "list"|"tuple"|"set"|"dict", id, q]   a container; the items   *)
(*                                           of a dict are pairs <<E, E>>  *)
(* R describes what the call function returns:                             *)
(*   [r |-> "fresh", key]   a new object                                   *)
(*   [r |-> "arg", k]       its k-th argument (modulo their number)        *)
(*   [r |-> "list"|"tuple"] a new container with all of its arguments      *)
(*   [r |-> "iter", k]      a new iterable of k new objects                *)
(*                                                                         *)
(* Values look like node-free expressions.  id names the object: two       *)
(* values with the same non-empty id are the same object; a container with *)
(* id "" was (re)built and only its content matters.  key identifies       *)
(* equality classes.  [t |-> "err"] is an evaluation that raises.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Err == [t |-> "err"]
Containers == {"list", "tuple", "set", "dict"}

RECURSIVE HasNode(_)
HasNode(x) ==
    CASE x.t = "obj" -> FALSE
      [] x.t = "node" -> TRUE
      [] x.t = "dict" -> \E k \in 1..Len(x.q) : HasNode(x.q[k][1]) \/ HasNode(x.q[k][2])
      [] OTHER -> \E k \in 1..Len(x.q) : HasNode(x.q[k])

\* the equality class of a hashable value; "" if it is not hashable
RECURSIVE Key(_), Keys(_, _)
Keys(q, k) == IF k > Len(q) THEN "" ELSE Key(q[k]) \o "," \o Keys(q, k + 1)
Key(v) == CASE v.t = "obj" -> v.key
            [] v.t = "iter" -> v.id
            [] v.t = "tuple" -> IF \E k \in 1..Len(v.q) : Key(v.q[k]) = "" THEN "" ELSE "(" \o Keys(v.q, 1) \o ")"
            [] OTHER -> ""

\* symbolic nodes are equal only to themselves
RECURSIVE SKey(_), SKeys(_, _)
SKeys(q, k) == IF k > Len(q) THEN "" ELSE SKey(q[k]) \o "," \o SKeys(q, k + 1)
SKey(x) == CASE x.t = "node" -> "@" \o ToString(x.n) \o "." \o ToString(x.j)
             [] x.t = "tuple" -> "(" \o SKeys(x.q, 1) \o ")"
             [] OTHER -> Key(x)

\* a dict display: the first of equal keys stays in place, the last value wins
RECURSIVE DictBy(_, _, _)
DictBy(q, keys, acc) == \* acc: <<key, <<e, e>>>>
    IF q = << >> THEN [k \in 1..Len(acc) |-> acc[k][2]]
    ELSE LET p == Head(q)
             hit == {k \in 1..Len(acc) : acc[k][1] = Head(keys)}
         IN DictBy(Tail(q), Tail(keys),
                   IF hit = {} THEN Append(acc, <<Head(keys), p>>)
                   ELSE LET k == CHOOSE k \in hit : TRUE IN [acc EXCEPT ![k] = <<@[1], <<@[2][1], p[2]>>>>])
Dict(q) == DictBy(q, [k \in 1..Len(q) |-> Key(q[k][1])], << >>)
Display(x) == DictBy(x.q, [k \in 1..Len(x.q) |-> SKey(x.q[k][1])], << >>)   \* the items of the dict that the user wrote


\* a set display keeps one of each class of equal elements
RECURSIVE Distinct(_, _)
Distinct(q, acc) == IF q = << >> THEN acc
                    ELSE Distinct(Tail(q), IF \E k \in 1..Len(acc) : Key(acc[k]) = Key(Head(q)) THEN acc ELSE Append(acc, Head(q)))

\* the value of a node-free expression
RECURSIVE Const(_)
Const(x) == CASE x.t = "obj" -> x
              [] x.t = "dict" -> [x EXCEPT !.q = Dict([k \in 1..Len(x.q) |-> <<Const(x.q[k][1]), Const(x.q[k][2])>>])]
              [] x.t = "set" -> [x EXCEPT !.q = Distinct([k \in 1..Len(x.q) |-> Const(x.q[k])], << >>)]
              [] OTHER -> [x EXCEPT !.q = [k \in 1..Len(x.q) |-> Const(x.q[k])]]

\* node-free expressions below a rebuilt container: their identity is not prescribed
RECURSIVE Loose(_)
Loose(x) == CASE x.t = "obj" -> x
              [] x.t = "dict" -> [t |-> "dict", id |-> "", q |-> [k \in 1..Len(x.q) |-> <<Loose(x.q[k][1]), Loose(x.q[k][2])>>]]
              [] OTHER -> [t |-> x.t, id |-> "", q |-> [k \in 1..Len(x.q) |-> Loose(x.q[k])]]

Item(v, j) == IF j = 0 \/ v.t = "err" THEN v ELSE v.q[j]

RECURSIVE EvalX(_, _, _)
\* V: the values of the nodes so far; top: x is an argument itself
EvalX(x, V, top) ==
    CASE x.t = "node" -> Item(V[x.n], x.j)
      [] ~HasNode(x) -> IF top THEN Const(x) ELSE Loose(Const(x))
      [] x.t = "dict" ->
            LET d == Display(x)
                q == [k \in 1..Len(d) |-> <<EvalX(d[k][1], V, FALSE), EvalX(d[k][2], V, FALSE)>>]
            IN IF \E k \in 1..Len(q) : q[k][1].t = "err" \/ q[k][2].t = "err" THEN Err
               ELSE IF \E k \in 1..Len(q) : Key(q[k][1]) = "" THEN Err
               ELSE [t |-> "dict", id |-> "", q |-> Dict(q)]
      [] OTHER ->
            LET q == [k \in 1..Len(x.q) |-> EvalX(x.q[k], V, FALSE)]
            IN IF \E k \in 1..Len(q) : q[k].t = "err" THEN Err
               ELSE IF x.t = "set" /\ \E k \in 1..Len(q) : Key(q[k]) = "" THEN Err
               ELSE [t |-> x.t, id |-> "", q |-> q]

Name(i) == "r" \o ToString(i)
ItemObj(i, k) == [t |-> "obj", id |-> Name(i) \o "." \o ToString(k), key |-> Name(i) \o "." \o ToString(k)]

\* the items of an iterable value, for unpack; <<Err>> if it is not iterable
Items(v) == CASE v.t \in {"list", "tuple", "iter"} -> v.q
              [] v.t = "dict" -> [k \in 1..Len(v.q) |-> v.q[k][1]]
              [] OTHER -> <<Err>>

Result(i, res, args) ==
    CASE res.r = "fresh" -> [t |-> "obj", id |-> Name(i), key |-> res.key]
      [] res.r = "arg" -> IF args = << >> THEN [t |-> "obj", id |-> Name(i), key |-> Name(i)] ELSE args[(res.k % Len(args)) + 1]
      [] res.r \in {"list", "tuple"} -> [t |-> res.r, id |-> Name(i), q |-> args]
      [] res.r = "iter" -> [t |-> "iter", id |-> Name(i), q |-> [k \in 1..res.k |-> ItemObj(i, k)]]

Pos(x, V) == [k \in 1..Len(x.pos) |-> EvalX(x.pos[k], V, TRUE)]
Kw(x, V) == [k \in 1..Len(x.kw) |-> EvalX(x.kw[k].x, V, TRUE)]

NodeValue(x, i, V) ==
    CASE x.op = "lit" -> Const(x.x)
      [] x.op = "gather" -> EvalX(x.x, V, TRUE)
      [] x.op = "unpack" ->
            LET v == EvalX(x.x, V, TRUE)
            IN IF v.t = "err" THEN Err
               ELSE IF Len(Items(v)) = x.n /\ \A k \in 1..x.n : Items(v)[k].t # "err"
                    THEN [t |-> "tuple", id |-> "", q |-> Items(v)] ELSE Err
      [] OTHER ->
            LET a == Pos(x, V) \o Kw(x, V)
            IN IF \E k \in 1..Len(a) : a[k].t = "err" THEN Err ELSE Result(i, x.res, a)

RECURSIVE Values(_, _, _)
Values(nodes, i, V) == IF i > Len(nodes) THEN V ELSE Values(nodes, i + 1, Append(V, NodeValue(nodes[i], i, V)))
Eval(p) == Values(p.nodes, 1, << >>)

---------------------------------------------------------------------------
\* the nodes that the output depends on
RECURSIVE Refs(_)
Refs(x) == CASE x.t = "node" -> {x.n}
             [] x.t = "obj" -> {}
             [] x.t = "dict" -> UNION {Refs(x.q[k][1]) \cup Refs(x.q[k][2]) : k \in 1..Len(x.q)}
             [] OTHER -> UNION {Refs(x.q[k]) : k \in 1..Len(x.q)}
NodeRefs(x) == CASE x.op = "lit" -> {}
                 [] x.op \in {"gather", "unpack"} -> Refs(x.x)
                 [] OTHER -> UNION {Refs(x.pos[k]) : k \in 1..Len(x.pos)} \cup UNION {Refs(x.kw[k].x) : k \in 1..Len(x.kw)}
RECURSIVE Needs(_, _)
Needs(p, S) == LET U == S \cup UNION {NodeRefs(p.nodes[i]) : i \in S} IN IF U = S THEN S ELSE Needs(p, U)
Needed(p) == Needs(p, Refs(p.out))

OutValue(p, V) == EvalX(p.out, V, FALSE)
Fails(p, V) == OutValue(p, V).t = "err" \/ \E i \in Needed(p) : V[i].t = "err"

---------------------------------------------------------------------------
\* The observed value act is what evaluation prescribes.
RECURSIVE Same(_, _)
Same(exp, act) ==
    IF exp.t # act.t THEN FALSE
    ELSE IF exp.t = "obj" THEN exp.id = act.id
    ELSE /\ exp.id # "" /\ ~(exp.t = "tuple" /\ exp.q = << >>) => exp.id = act.id    \* there is only one empty tuple
         /\ CASE exp.t = "set" -> {Key(exp.q[k]) : k \in 1..Len(exp.q)} = {Key(act.q[k]) : k \in 1..Len(act.q)}
                                  /\ Len(act.q) = Cardinality({Key(exp.q[k]) : k \in 1..Len(exp.q)})
              [] exp.t = "dict" -> /\ Len(exp.q) = Len(act.q)
                                   /\ \A k \in 1..Len(exp.q) : Same(exp.q[k][1], act.q[k][1]) /\ Same(exp.q[k][2], act.q[k][2])
              [] exp.t = "iter" -> exp.id = act.id
              [] OTHER -> /\ Len(exp.q) = Len(act.q)
                          /\ \A k \in 1..Len(exp.q) : Same(exp.q[k], act.q[k])

SameAll(exp, act) == Len(exp) = Len(act) /\ \A k \in 1..Len(exp) : Same(exp[k], act[k])

Viol(b, name) == IF b THEN {} ELSE {name}

\* c = [p |-> program, V |-> Eval(p)]
Clauses(c, e) ==
    CASE e.e = "call" ->
            LET x == c.p.nodes[e.n] IN
            Viol(SameAll(Pos(x, c.V), e.pos), "C02.positional")
            \cup Viol([k \in 1..Len(x.kw) |-> x.kw[k].k] = [k \in 1..Len(e.kw) |-> e.kw[k].k], "C02.keyword-names")
            \cup (IF Len(e.kw) = Len(x.kw) THEN Viol(SameAll(Kw(x, c.V), [k \in 1..Len(e.kw) |-> e.kw[k].x]), "C02.keyword-values") ELSE {})
      [] e.e = "value" -> Viol(~Fails(c.p, c.V), "C02.must-raise")
                          \cup (IF Fails(c.p, c.V) THEN {} ELSE Viol(Same(OutValue(c.p, c.V), e.v), "C02.output"))
      [] e.e = "raise" -> Viol(Fails(c.p, c.V), "C02.must-not-raise")
      [] e.e = "built" -> Viol(e.ok, "C02.build")
      [] e.e = "hang" -> {"C02.hang"}
      [] OTHER -> {}
=============================================================================
