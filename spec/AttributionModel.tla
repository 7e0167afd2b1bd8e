--------------------------- MODULE AttributionModel ---------------------------
(***************************************************************************)
(* A design of the capture: a user's program enters and leaves functions,  *)
(* moves on from line to line and uses the API, which runs in frames of    *)
(* its own and captures the chain of frames above them; then run fails.    *)
(***************************************************************************)
EXTENDS Attribution

CONSTANTS Depth, Uses,
          WrongSkip, OffByOne, NoMark, GatherInner, StoreOfNode, CopyLoses, Unreversed   \* deliberately broken variants

VARIABLES stack, sites, nodes, phase, viol
\* nodes: [kind, made, entry, chain, echain]; stack: innermost first
vars == <<stack, sites, nodes, phase, viol>>

F(f, l) == [f |-> f, l |-> l, n |-> f, ip |-> FALSE]
Lib(n) == F("lib", n)

\* get_stack_frame: walk k frames up, then take frames until the limit
Capture(full, skip) ==
    LET s == SubSeq(full, skip + 1, Len(full))
        lim == IF OffByOne THEN Limit - 1 ELSE Limit
    IN [frames |-> SubSeq(s, 1, Least(lim, Len(s))), trunc |-> ~NoMark /\ Len(s) > lim]
Get(depth) ==  \* captured by a function that is `depth` library frames below the user
    Capture([k \in 1..depth |-> Lib(k)] \o stack, IF WrongSkip /\ depth > 1 THEN depth - 1 ELSE depth)

Init == stack = <<F("m", 1)>> /\ sites = << >> /\ nodes = << >> /\ phase = "build" /\ viol = {}

Move == /\ phase = "build" /\ Len(sites) < Uses /\ UNCHANGED <<sites, nodes, phase, viol>>
        /\ \/ /\ Len(stack) < Depth /\ stack' = <<F("g" \o ToString(Len(stack)), 1)>> \o stack
           \/ /\ Len(stack) > 1 /\ stack' = Tail(stack)
           \/ /\ stack[1].l < 2 /\ stack' = [stack EXCEPT ![1].l = 2]

Use == /\ phase = "build" /\ Len(sites) < Uses
       /\ sites' = Append(sites, stack)
       /\ \/ \E kind \in {"call", "gather", "source"} :
                nodes' = Append(nodes, [kind |-> kind, made |-> Len(sites) + 1, entry |-> IF kind = "source" THEN Len(sites) + 1 ELSE 0,
                                        chain |-> Get(IF kind = "gather" /\ GatherInner THEN 2 ELSE 1), echain |-> Get(1)])
          \/ \E i \in 1..Len(nodes) :
                /\ nodes[i].entry = 0
                /\ nodes' = [nodes EXCEPT ![i].entry = Len(sites) + 1, ![i].echain = IF StoreOfNode THEN nodes[i].chain ELSE Get(1)]
       /\ UNCHANGED <<stack, phase, viol>>

P == [sites |-> sites, made |-> [i \in 1..Len(nodes) |-> nodes[i].made], entry |-> [i \in 1..Len(nodes) |-> nodes[i].entry], run |-> 1]

Fail == /\ phase = "build" /\ phase' = "over" /\ UNCHANGED <<stack, sites, nodes>>
        /\ \E i \in 1..Len(nodes) :
           \E what \in {"call", "query"} \cup (IF nodes[i].entry # 0 THEN {"read", "write"} ELSE {}) :
             LET c == IF what \in {"read", "write"} THEN nodes[i].echain ELSE nodes[i].chain
                 d == IF CopyLoses THEN [frames |-> SubSeq(c.frames, 1, Least(1, Len(c.frames))), trunc |-> c.trunc] ELSE c
                 shown == Shown(d.frames, d.trunc)
             IN viol' = Clauses(P, [e |-> "fail", what |-> what, node |-> i, frames |-> d.frames, trunc |-> d.trunc,
                                    text |-> IF Unreversed THEN shown ELSE Reverse(shown), same |-> TRUE])

Next == Move \/ Use \/ Fail
Sound == viol = {}
=============================================================================
