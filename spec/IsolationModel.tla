--------------------------- MODULE IsolationModel ---------------------------
(***************************************************************************)
(* Design of the ownership of graphs and registry entries.                 *)
(*                                                                         *)
(* Every plan refers to a graph in a heap, every registry to a mapping     *)
(* from nodes to entry objects in a heap.  A run takes steps (copy,        *)
(* transform, execute, end) that interleave with those of other runs and   *)
(* with operations of the user; it evaluates the graph that it works on.   *)
(***************************************************************************)
EXTENDS Isolation, SequencesExt

CONSTANTS Nodes,
          RunInPlace,     \* broken design: a run transforms the caller's graph (and puts it back at the end)
          ShallowPlan,    \* broken design: Plan.copy shares the graph
          ShallowEntries, \* broken design: Registry.copy shares the entries
          KeepScope       \* broken design: a run changes the scope of nodes that it shares with the plan

\* heap: graph id -> set of nodes; entry id -> store; plans: seq of graph ids; regs: seq of mappings node -> entry id
VARIABLES graphs, entries, plans, regs, scopes, runs, m, bad, n
vars == <<graphs, entries, plans, regs, scopes, runs, m, bad, n>>

Content(p) == <<graphs'[p], [u \in graphs'[p] |-> scopes'[u]]>>
RContent(r) == {<<u, entries'[r[u]]>> : u \in DOMAIN r}
PN == <<"p1", "p2">>
RN == <<"r1", "r2">>
ObsNow == [o \in {PN[i] : i \in 1..Len(plans')} |-> Content(plans'[CHOOSE i \in 1..2 : PN[i] = o])]
          @@ [o \in {RN[i] : i \in 1..Len(regs')} |-> RContent(regs'[CHOOSE i \in 1..2 : RN[i] = o])]
See(op, w, of) == LET e == [e |-> "op", op |-> op, w |-> w, obs |-> ObsNow, of |-> of]
                      c == Clauses(m, e)
                  IN bad' = bad \cup c /\ m' = Apply(m, e)

Init == /\ graphs = <<{1}>> /\ entries = << 1 >> /\ plans = <<1>> /\ regs = << (1 :> 1) >>
        /\ scopes = [u \in Nodes |-> 0] /\ runs = << >> /\ bad = {} /\ n = 0
        /\ m = [Start EXCEPT !.obs = ("p1" :> <<{1}, (1 :> 0)>>) @@ ("r1" :> {<<1, 1>>})]

AddNode == \E i \in 1..Len(plans), u \in Nodes :
    /\ u \notin graphs[plans[i]]
    /\ graphs' = [graphs EXCEPT ![plans[i]] = @ \cup {u}]
    /\ UNCHANGED <<entries, plans, regs, scopes, runs>>
    /\ See("call", {PN[i]}, "")
AddEntry == \E i \in 1..Len(regs), u \in Nodes :
    /\ u \notin DOMAIN regs[i]
    /\ entries' = Append(entries, 1)
    /\ regs' = [regs EXCEPT ![i] = (u :> Len(entries')) @@ @]
    /\ UNCHANGED <<graphs, plans, scopes, runs>>
    /\ See("add", {RN[i]}, "")
SetEntry == \E i \in 1..Len(regs) : \E u \in DOMAIN regs[i] :
    /\ entries' = [entries EXCEPT ![regs[i][u]] = 3 - @]
    /\ UNCHANGED <<graphs, plans, regs, scopes, runs>>
    /\ See("set", {RN[i]}, "")
CopyPlan == /\ Len(plans) < 2
            /\ IF ShallowPlan THEN plans' = Append(plans, plans[1]) /\ UNCHANGED graphs
               ELSE graphs' = Append(graphs, graphs[plans[1]]) /\ plans' = Append(plans, Len(graphs'))
            /\ UNCHANGED <<entries, regs, scopes, runs>>
            /\ See("copy", {}, "p1")
CopyReg == /\ Len(regs) < 2
           /\ IF ShallowEntries THEN regs' = Append(regs, regs[1]) /\ UNCHANGED entries
              ELSE /\ entries' = entries \o [k \in 1..Cardinality(DOMAIN regs[1]) |-> entries[regs[1][SetToSeq(DOMAIN regs[1])[k]]]]
                   /\ regs' = Append(regs, [u \in DOMAIN regs[1] |->
                                              Len(entries) + CHOOSE k \in 1..Cardinality(DOMAIN regs[1]) : SetToSeq(DOMAIN regs[1])[k] = u])
           /\ UNCHANGED <<graphs, plans, scopes, runs>>
           /\ See("copy", {}, "r1")

\* a run: copies the graph (or not), transforms it (drops the nodes above 1, say, and adds node 9), ends
Begin == \E i \in 1..Len(plans) :
    /\ Len(runs) < 2
    /\ IF RunInPlace THEN UNCHANGED graphs ELSE graphs' = Append(graphs, graphs[plans[i]])
    /\ runs' = Append(runs, [g |-> IF RunInPlace THEN plans[i] ELSE Len(graphs'), pc |-> "copied", was |-> graphs[plans[i]]])
    /\ UNCHANGED <<entries, plans, regs, scopes>>
    /\ See("run", {}, "")
Transform == \E k \in 1..Len(runs) :
    /\ runs[k].pc = "copied"
    /\ graphs' = [graphs EXCEPT ![runs[k].g] = {u \in @ : u < 2} \cup {9}]
    /\ scopes' = IF KeepScope THEN [scopes EXCEPT ![1] = 1] ELSE scopes
    /\ runs' = [runs EXCEPT ![k].pc = "transformed"]
    /\ UNCHANGED <<entries, plans, regs>>
    /\ See("inside", {}, "")
End == \E k \in 1..Len(runs) :
    /\ runs[k].pc = "transformed"
    /\ graphs' = IF RunInPlace THEN [graphs EXCEPT ![runs[k].g] = runs[k].was] ELSE graphs
    /\ runs' = [runs EXCEPT ![k].pc = "done"]
    /\ UNCHANGED <<entries, plans, regs, scopes>>
    /\ See("run", {}, "")

Next == n < 7 /\ n' = n + 1 /\ (AddNode \/ AddEntry \/ SetEntry \/ CopyPlan \/ CopyReg \/ Begin \/ Transform \/ End)
Good == bad = {}
=============================================================================
