--------------------------- MODULE FileStoreModel ---------------------------
(***************************************************************************)
(* Design of the staged write: every file operation is a step, any of them *)
(* may fail (before taking effect, or, for a write, half-way), the process *)
(* may die before or after each, and any number of writes follow each      *)
(* other.  Data travels through a user-space buffer that is flushed when   *)
(* it is full and when the file is closed.  The monitor of FileStore       *)
(* observes every attempt.                                                 *)
(***************************************************************************)
EXTENDS FileStore

CONSTANTS Values,       \* 1..n
          Chunks,       \* a serialised value consists of this many chunks
          Direct,       \* broken design: writes the target itself
          RenameEarly,  \* broken design: renames before closing (the buffer is not flushed yet)
          NoTruncate,   \* the staging file is appended to (broken unless PreClean)
          PreClean,     \* a staging file left behind is removed first
          NoCleanup     \* broken design: does not remove the staging file after a failed rename

\* a file's content is a sequence of <<value, chunk>> (<<-value, chunk>>: half of the chunk)
Absent == << <<0, 0>> >>  \* there is no file
Whole(v) == [k \in 1..Chunks |-> <<v, k>>]

VARIABLES target, staging, tchanged, w, cur, bad
vars == <<target, staging, tchanged, w, cur, bad>>

\* w: the attempt in progress: pc, value, chunks produced, buffer, whether the value cannot be serialised after chunk n
None == [pc |-> "idle", v |-> 0, n |-> 0, buf |-> << >>, fail |-> 0, inj |-> FALSE, unl |-> FALSE, before |-> Absent, exc |-> FALSE]

Init == target = Absent /\ staging = Absent /\ tchanged = FALSE /\ w = None /\ cur = {0} /\ bad = {}

Match(t) == {v \in Values : t = Whole(v)} \cup (IF t = Absent THEN {0} ELSE {})

Begin == /\ w.pc = "idle"
         /\ \E v \in Values, f \in 0..Chunks :
               w' = [None EXCEPT !.pc = IF PreClean THEN "preclean" ELSE "open", !.v = v, !.fail = f, !.before = staging]
         /\ tchanged' = FALSE
         /\ UNCHANGED <<target, staging, cur, bad>>

\* the attempt ends: observe it
End(out, t, s, changed) ==
    LET e == [e |-> "write", v |-> w.v, bad |-> w.fail > 0, inj |-> w.inj \/ out = "died", out |-> out, match |-> Match(t), mt |-> changed,
              extra |-> IF s # Absent /\ s # w.before THEN 1 ELSE 0, unl |-> w.unl]
    IN /\ bad' = bad \cup Clauses(cur, e)
       /\ cur' = Apply(cur, e)
       /\ w' = None
       /\ target' = t /\ staging' = s /\ tchanged' = changed

Die == w.pc # "idle" /\ End("died", target, staging, tchanged)

File == IF Direct THEN target ELSE staging
Put(x) == IF Direct THEN target' = x /\ tchanged' = TRUE /\ UNCHANGED staging
          ELSE staging' = x /\ UNCHANGED <<target, tchanged>>

Fail(pc) == w' = [w EXCEPT !.pc = pc, !.inj = TRUE, !.exc = TRUE] /\ UNCHANGED <<target, staging, tchanged, cur, bad>>

Pre == /\ w.pc = "preclean"
       /\ \/ staging' = Absent /\ w' = [w EXCEPT !.pc = "open"] /\ UNCHANGED <<target, tchanged, cur, bad>>
          \/ Fail("raise")

Open == /\ w.pc = "open"
        /\ \/ /\ Put(IF NoTruncate /\ File # Absent THEN File ELSE << >>)
              /\ w' = [w EXCEPT !.pc = "write"]
              /\ UNCHANGED <<cur, bad>>
           \/ Fail("cleanup")

\* a chunk is produced and buffered; the value may turn out not to be serialisable
Produce == /\ w.pc = "write" /\ w.n < Chunks /\ w.buf = << >>
           /\ IF w.fail = w.n + 1
              THEN w' = [w EXCEPT !.pc = "close", !.exc = TRUE]
              ELSE w' = [w EXCEPT !.n = @ + 1, !.buf = Append(@, <<w.v, w.n + 1>>)]
           /\ UNCHANGED <<target, staging, tchanged, cur, bad>>
\* the buffer is written, possibly only a part of it, or the write fails
Flush == /\ w.pc = "write" /\ w.buf # << >> /\ w.n < Chunks
         /\ \/ Put(Append(File, w.buf[1])) /\ w' = [w EXCEPT !.buf = << >>] /\ UNCHANGED <<cur, bad>>
            \/ Put(Append(File, <<0 - w.buf[1][1], w.buf[1][2]>>)) /\ w' = [w EXCEPT !.pc = "close", !.inj = TRUE, !.exc = TRUE, !.buf = << >>] /\ UNCHANGED <<cur, bad>>
            \/ Fail("close")
Full == /\ w.pc = "write" /\ w.n = Chunks
        /\ w' = [w EXCEPT !.pc = IF RenameEarly THEN "rename" ELSE "close"]
        /\ UNCHANGED <<target, staging, tchanged, cur, bad>>

\* closing flushes what is left; the close itself may fail
Close == /\ w.pc = "close"
         /\ LET next == IF w.exc THEN "cleanup" ELSE IF Direct \/ RenameEarly THEN "done" ELSE "rename" IN
            \/ /\ IF w.buf = << >> THEN UNCHANGED <<target, staging, tchanged>>
                  ELSE IF RenameEarly /\ ~w.exc THEN target' = Append(target, w.buf[1]) /\ tchanged' = TRUE /\ UNCHANGED staging
                  ELSE Put(Append(File, w.buf[1]))
               /\ w' = [w EXCEPT !.pc = next, !.buf = << >>]
               /\ UNCHANGED <<cur, bad>>
            \/ Fail("cleanup")
Rename == /\ w.pc = "rename"
          /\ \/ /\ target' = staging /\ staging' = Absent /\ tchanged' = TRUE
                /\ w' = [w EXCEPT !.pc = IF RenameEarly THEN "close" ELSE "done"]
                /\ UNCHANGED <<cur, bad>>
             \/ IF NoCleanup THEN Fail("raise") ELSE Fail("cleanup")
Cleanup == /\ w.pc = "cleanup"
           /\ \/ /\ IF Direct THEN target' = Absent /\ UNCHANGED staging ELSE staging' = Absent /\ UNCHANGED target
                 /\ w' = [w EXCEPT !.pc = "raise"]
                 /\ UNCHANGED <<tchanged, cur, bad>>
              \/ w' = [w EXCEPT !.pc = "raise", !.inj = TRUE, !.unl = TRUE] /\ UNCHANGED <<target, staging, tchanged, cur, bad>>
Raise == w.pc = "raise" /\ End("exc", target, staging, tchanged)
Done == w.pc = "done" /\ End("ok", target, staging, tchanged)

Next == Begin \/ Die \/ Pre \/ Open \/ Produce \/ Flush \/ Full \/ Close \/ Rename \/ Cleanup \/ Raise \/ Done

Good == bad = {}
\* at every moment the target is complete, and unchanged until the new value is in place
Atomic == /\ Match(target) # {}
          /\ w.pc # "idle" => Match(target) \cap (cur \cup {w.v}) # {}
          /\ w.pc # "idle" /\ tchanged => w.v \in Match(target)
=============================================================================
