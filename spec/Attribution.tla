------------------------------ MODULE Attribution ------------------------------
(***************************************************************************)
(* The symbolic traceback of a failure (C19).                              *)
(*                                                                         *)
(* p: sites   the user's stack (innermost first) at every use of the API:  *)
(*            <<<<[f |-> file, l |-> line, n |-> name], ...>>, ...>>       *)
(*    made    node -> the site that created it (call, gather, unpack, lit  *)
(*            or source)                                                   *)
(*    entry   node -> the site of the registry.add or source line (0: none)*)
(*    run     the site of the run line                                     *)
(* [e |-> "fail", what, node, frames, trunc, text, same]  run raised a     *)
(*    CallError: what failed, for which node; its frames (innermost first),*)
(*    whether it is marked truncated; the frames as rendered (in the order *)
(*    of the message; f = "..." stands for the truncation mark); whether   *)
(*    CallError.call is the call in question                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Limit == 4

Viol(b, name) == IF b THEN {} ELSE {name}
Least(a, b) == IF a < b THEN a ELSE b

Captured(stack) == SubSeq(stack, 1, Least(Limit, Len(stack)))
Truncated(stack) == Len(stack) > Limit

Site(p, e) ==
    CASE e.what \in {"call", "gather", "unpack", "query"} -> p.made[e.node]
      [] e.what \in {"read", "write"} -> p.entry[e.node]
      [] e.what = "output" -> p.run

Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
\* frames of an interactive shell and what lies outside of them are not rendered
Shown(frames, trunc) ==
    LET cut == {k \in 1..Len(frames) : frames[k].ip}
        first == CHOOSE k \in cut : \A j \in cut : k <= j
    IN IF cut = {} THEN (IF trunc THEN Append(frames, [f |-> "...", l |-> 0, n |-> "", ip |-> FALSE]) ELSE frames)
       ELSE SubSeq(frames, 1, first - 1)

Clauses(p, e) ==
    CASE e.e = "fail" ->
            LET stack == p.sites[Site(p, e)] IN
            Viol(e.same, "C19.call")
            \cup Viol(Len(e.frames) > 0 /\ e.frames[1] = stack[1], "C19.line")
            \cup Viol(e.frames = Captured(stack), "C19.frames")
            \cup Viol(e.trunc = Truncated(stack), "C19.truncated")
            \cup Viol(e.text = Reverse(Shown(Captured(stack), Truncated(stack))), "C19.message")
      [] e.e = "other" -> {"C19.not-a-call-error"}
      [] OTHER -> {}
=============================================================================
