---------------------------- MODULE InstantsModel ----------------------------
(***************************************************************************)
(* Two stores, one downstream of the other, and a fresh_time, at all       *)
(* instants around the transitions of all zones and in all                 *)
(* representations: the comparison that the implementation makes (on naive *)
(* UTC values) against the comparison of instants.  The scenarios are      *)
(* written to the file named by INSTANTS for the campaign against the code.*)
(***************************************************************************)
EXTENDS Instants, Json, IOUtils

CONSTANTS NaiveAsUtc, IgnoreFold, WallClock

Deltas == {-3601, -1800, -1, 0, 1799, 3599, 3600}
Centres(z) == IF ZoneTable[z].tr = << >> THEN {1636264800} ELSE {ZoneTable[z].tr[k].at : k \in 1..Len(ZoneTable[z].tr)}

VARIABLES tz, up, down, fresh, chosen

Reps(z, i) == {[k |-> "naive", loc |-> Local(z, i), fold |-> FoldOf(z, i), us |-> 0],
               [k |-> "off", loc |-> i + 19800, off |-> 19800, us |-> 0],
               [k |-> "zone", z |-> z, loc |-> Local(z, i), fold |-> FoldOf(z, i), us |-> 0]}
              \cup {[k |-> "naive", loc |-> Local(z, i), fold |-> 1, us |-> 0] : x \in {x \in {1} : Cardinality(Candidates(z, Local(z, i))) = 1}}

Near(z) == UNION {{<<c + a, c + b>> : a \in Deltas, b \in Deltas} : c \in Centres(z)}

None == [k |-> "none"]
\* first the instants are chosen, then how they are represented
Init == \E z \in Zones : \E q \in Near(z) : tz = z /\ up = q[1] /\ down = q[2] /\ fresh = "" /\ chosen = FALSE
Next == /\ ~chosen /\ chosen' = TRUE /\ tz' = tz
        /\ up' \in Reps(tz, up) /\ down' \in Reps(tz, down) /\ fresh' \in Reps(tz, up + 60)

\* what the implementation computes with
Value(d) ==
    CASE d.k = "naive" ->
            IF NaiveAsUtc THEN d.loc
            ELSE IF IgnoreFold THEN InstantOf(tz, d.loc, 0)
            ELSE InstantOf(tz, d.loc, d.fold)
      [] OTHER -> IF WallClock THEN Local(tz, Denotes(tz, d)[1]) ELSE Denotes(tz, d)[1]
Value2(d) == IF WallClock /\ d.k = "naive" THEN d.loc ELSE Value(d)

Plan2 == TLCEval(Static([n |-> 2, kind |-> <<"src", "call">>, args |-> <<<< >>, <<[s |-> "n", q |-> <<1>>]>>>>, deps |-> <<{}, {}>>,
                 reg |-> <<TRUE, TRUE>>, side |-> <<0, 0>>, allout |-> {}]))

Right == chosen => ((Value2(up) > Value2(down) \/ Value2(fresh) > Value2(down)) <=> Rewritten(Plan2, tz, <<up, down>>, fresh) = {2})
NoFresh == chosen => (Value2(up) > Value2(down) <=> Rewritten(Plan2, tz, <<up, down>>, None) = {2})
\* civil time is sound: every instant is denoted by its local time and fold
RoundTrip == ~chosen => InstantOf(tz, Local(tz, up), FoldOf(tz, up)) = up

Scenarios == UNION {{[tz |-> z, up |-> q[1], down |-> q[2]] : q \in Near(z)} : z \in Zones}
ASSUME IF "INSTANTS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.INSTANTS, <<Scenarios>>) ELSE TRUE
=============================================================================
