---------------------------- MODULE RegisterModel ----------------------------
(***************************************************************************)
(* Design of the stores.                                                   *)
(*                                                                         *)
(* Text: the way of a string through a text file, over character classes:  *)
(* newlines are translated by the writer and by the reader according to    *)
(* their newline arguments ("none" or "empty") and the platform's line     *)
(* separator, and some encodings put a signature (a BOM) in front, which   *)
(* decoding strips once.  Every string up to MaxLen must come back.        *)
(*                                                                         *)
(* JSON: every tree up to depth 2 over leaf classes is turned into tokens  *)
(* and parsed back.                                                        *)
(*                                                                         *)
(* The same strings and trees are written to VALUES and pushed through the *)
(* implementation by the campaign "domain".                                *)
(*                                                                         *)
(* Histories: a mounted store (a local file and a remote copy) and a clock *)
(* of a coarse resolution; writes, reads, removals; the monitor Register   *)
(* observes them.                                                          *)
(***************************************************************************)
EXTENDS Register, SequencesExt, Json, IOUtils

CONSTANTS MaxLen,
          WriteNewline, ReadNewline,   \* "empty"; "none" is broken
          KeyLists,                    \* broken design: objects keep only the keys' first occurrence of a class
          EagerCopy,                   \* broken design: the local file is copied before it is complete
          CacheRead,                   \* broken design: reads are served from the local copy of the last write
          NoneIsMissing                \* broken design: a stored value that looks empty is reported as missing

Chars == {"LF", "CR", "NUL", "NEL", "BOM", "x", "latin", "astral"}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<< >>} ELSE Strings(n - 1) \cup {Append(s, c) : s \in {t \in Strings(n - 1) : Len(t) = n - 1}, c \in Chars}

RECURSIVE Translate(_, _), Universal(_)
Translate(s, sep) == IF s = << >> THEN << >> ELSE (IF Head(s) = "LF" THEN sep ELSE <<Head(s)>>) \o Translate(Tail(s), sep)
Universal(s) == IF s = << >> THEN << >>
                ELSE IF Head(s) = "CR" THEN <<"LF">> \o Universal(IF Len(s) > 1 /\ s[2] = "LF" THEN SubSeq(s, 3, Len(s)) ELSE Tail(s))
                ELSE <<Head(s)>> \o Universal(Tail(s))
Encode(s, sig) == IF sig THEN <<"BOM">> \o s ELSE s
Decode(s, sig) == IF sig /\ s # << >> /\ Head(s) = "BOM" THEN Tail(s) ELSE s
WriteText(s, sep, sig) == Encode(IF WriteNewline = "none" THEN Translate(s, sep) ELSE s, sig)
ReadText(f, sig) == IF ReadNewline = "none" THEN Universal(Decode(f, sig)) ELSE Decode(f, sig)
Seps == {<<"LF">>, <<"CR", "LF">>}

\* JSON trees
Leaves == {[j |-> k] : k \in {"null", "true", "false", "int", "bigint", "float", "intfloat", "str", "estr", "numstr", "ctrl", "wide"}}
Keys == {"str", "estr", "ctrl", "wide"}
Sub(S) == {[j |-> "list", q |-> q] : q \in {<< >>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}}
          \cup {[j |-> "dict", q |-> q] : q \in {<< >>} \cup {<<<<k, a>>>> : k \in Keys, a \in S}
                                               \cup {<<<<k, a>>, <<l, b>>>> : k \in {"str"}, l \in Keys \ {"str"}, a, b \in S}}
Small == {[j |-> "null"], [j |-> "intfloat"], [j |-> "wide"]}
Trees == Leaves \cup Sub(Leaves) \cup Sub(Small \cup {[j |-> "list", q |-> <<a>>] : a \in Small} \cup {[j |-> "list", q |-> << >>], [j |-> "dict", q |-> << >>]}
                                             \cup {[j |-> "dict", q |-> <<<<"estr", a>>>>] : a \in Small})

RECURSIVE Tokens(_), Items(_, _)
Tokens(v) == IF v.j = "list" THEN <<"[">> \o Items(v.q, FALSE) \o <<"]">>
             ELSE IF v.j = "dict" THEN <<"{">> \o Items(v.q, TRUE) \o <<"}">>
             ELSE <<v.j>>
Items(q, d) == IF q = << >> THEN << >>
               ELSE (IF d THEN <<q[1][1]>> \o Tokens(q[1][2]) ELSE Tokens(q[1])) \o Items(Tail(q), d)
RECURSIVE Parse(_), ParseItems(_, _, _)
Parse(t) == IF t[1] = "[" THEN LET r == ParseItems(Tail(t), FALSE, << >>) IN [v |-> [j |-> "list", q |-> r.q], rest |-> r.rest]
            ELSE IF t[1] = "{" THEN LET r == ParseItems(Tail(t), TRUE, << >>) IN [v |-> [j |-> "dict", q |-> r.q], rest |-> r.rest]
            ELSE [v |-> [j |-> t[1]], rest |-> Tail(t)]
ParseItems(t, d, acc) ==
    IF t[1] \in {"]", "}"} THEN [q |-> acc, rest |-> Tail(t)]
    ELSE IF d THEN LET p == Parse(Tail(t)) IN
                   IF KeyLists /\ \E k \in 1..Len(acc) : acc[k][2] = p.v THEN ParseItems(p.rest, d, acc)
                   ELSE ParseItems(p.rest, d, Append(acc, <<t[1], p.v>>))
    ELSE LET p == Parse(t) IN ParseItems(p.rest, d, Append(acc, p.v))

TreeOK(v) == LET p == Parse(Tokens(v)) IN p.rest = << >> /\ p.v = v

Texts == TLCEval(SetToSeq(Strings(MaxLen)))
TreeSeq == TLCEval(SetToSeq(Trees))
ASSUME IF "VALUES" \in DOMAIN IOEnv
       THEN ndJsonSerialize(IOEnv.VALUES, [k \in 1..Len(Texts) |-> [text |-> Texts[k]]] \o [k \in 1..Len(TreeSeq) |-> [json |-> TreeSeq[k]]])
       ELSE TRUE

---------------------------------------------------------------------------
VARIABLES mode, arg,           \* "text", "json" or "history", and the value under consideration
          clock, remote, local, stamp, n, m, bad
vars == <<mode, arg, clock, remote, local, stamp, n, m, bad>>

V == 1..3   \* the value 1 looks empty

Init == /\ clock = 0 /\ remote = 0 /\ local = 0 /\ stamp = << >> /\ n = 0 /\ m = Init0({1}) /\ bad = {}
        /\ \/ mode = "text" /\ arg \in {[s |-> Texts[k], sep |-> sep, sig |-> sig] : k \in 1..Len(Texts), sep \in Seps, sig \in BOOLEAN}
           \/ mode = "json" /\ arg \in {[v |-> TreeSeq[k]] : k \in 1..Len(TreeSeq)}
           \/ mode = "history" /\ arg = [x |-> 0]

See(e) == bad' = bad \cup Clauses(m, e) /\ m' = Apply(m, e)
Obs == [e |-> "time", s |-> 1, out |-> "ok", t |-> stamp', lo |-> << >>, hi |-> << >>]

Write == \E v \in V :
    /\ local' = v
    /\ remote' = IF EagerCopy THEN local ELSE v
    /\ stamp' = IF NoneIsMissing /\ remote' = 1 THEN << >> ELSE <<0, clock, 0>>
    /\ LET m2 == Apply(m, [e |-> "write", s |-> 1, v |-> v, out |-> "ok", bad |-> FALSE])
       IN /\ bad' = bad \cup Clauses(m2, Obs)
          /\ m' = Apply(m2, Obs)
    /\ UNCHANGED clock
Read == /\ See([e |-> "read", s |-> 1, out |-> IF remote = 0 THEN "exc" ELSE "ok", match |-> {IF CacheRead /\ local # 0 THEN local ELSE remote}])
        /\ UNCHANGED <<clock, remote, local, stamp>>
Removal == /\ remote' = 0 /\ stamp' = << >>
          /\ See([e |-> "gone", s |-> 1])
          /\ UNCHANGED <<clock, local>>
\* another process writes to the same remote location
Other == \E v \in V : /\ remote' = v /\ stamp' = <<0, clock, 0>>
                      /\ See([e |-> "write", s |-> 1, v |-> v, out |-> "ok", bad |-> FALSE])
                      /\ UNCHANGED <<clock, local>>
Tick == clock < 3 /\ clock' = clock + 1 /\ UNCHANGED <<remote, local, stamp, m, bad>>

Next == /\ mode = "history" /\ n < 6 /\ n' = n + 1
        /\ Write \/ Read \/ Removal \/ Other \/ Tick
        /\ UNCHANGED <<mode, arg>>

Good == bad = {}
RoundTrip == /\ mode = "text" => ReadText(WriteText(arg.s, arg.sep, arg.sig), arg.sig) = arg.s
             /\ mode = "json" => TreeOK(arg.v)
=============================================================================
