------------------------------- MODULE Instants -------------------------------
(***************************************************************************)
(* Instants, civil time, and the decision which stores are out of date     *)
(* (C18).                                                                  *)
(*                                                                         *)
(* Instants and local times are seconds since 1970-01-01T00:00:00 (UTC,    *)
(* respectively on the local clock).  A zone is the offset that it had     *)
(* before the transitions listed (within the period that matters here) and *)
(* the transitions themselves.                                             *)
(* A datetime is a record                                                  *)
(*   [k |-> "none"]                         no value                       *)
(*   [k |-> "naive", loc, fold, us]         read as local time             *)
(*   [k |-> "off", loc, off, us]            aware, with a fixed offset     *)
(*   [k |-> "zone", z, loc, fold, us]       aware, in zone z               *)
(***************************************************************************)
EXTENDS Registry

Zone(o, tr) == [first |-> o, tr |-> tr]
T(at, off) == [at |-> at, off |-> off]
Fixed(o) == Zone(o, << >>)

\* transitions of 2021 (Apia: of December 2011, when a day was skipped)
ZoneTable ==
    [ UTC |-> Fixed(0),
      Kathmandu |-> Fixed(20700),
      Kiritimati |-> Fixed(50400),
      West |-> Fixed(-43200),
      NewYork |-> Zone(-18000, <<T(1615705200, -14400), T(1636264800, -18000)>>),
      London |-> Zone(0, <<T(1616893200, 3600), T(1635642000, 0)>>),
      Sydney |-> Zone(39600, <<T(1617465600, 36000), T(1633190400, 39600)>>),
      LordHowe |-> Zone(39600, <<T(1617462000, 37800), T(1633188600, 39600)>>),
      Apia |-> Zone(-36000, <<T(1325239200, 50400)>>) ]
Zones == DOMAIN ZoneTable

Offset(z, i) ==
    LET tr == ZoneTable[z].tr
        k == Cardinality({j \in 1..Len(tr) : tr[j].at <= i})
    IN IF k = 0 THEN ZoneTable[z].first ELSE tr[k].off
Offsets(z) == {ZoneTable[z].first} \cup {ZoneTable[z].tr[j].off : j \in 1..Len(ZoneTable[z].tr)}

Local(z, i) == i + Offset(z, i)
Candidates(z, loc) == {i \in {loc - o : o \in Offsets(z)} : Local(z, i) = loc}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* fold tells the two occurrences of a repeated local time apart and means nothing otherwise
InstantOf(z, loc, fold) == IF fold = 0 THEN Min(Candidates(z, loc)) ELSE Max(Candidates(z, loc))
FoldOf(z, i) == IF i = Min(Candidates(z, Local(z, i))) THEN 0 ELSE 1

Denotes(tz, d) ==
    CASE d.k = "naive" -> <<InstantOf(tz, d.loc, d.fold), d.us>>
      [] d.k = "off" -> <<d.loc - d.off, d.us>>
      [] d.k = "zone" -> <<InstantOf(d.z, d.loc, d.fold), d.us>>

Before2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

---------------------------------------------------------------------------
\* times: the modified time of every node's store ("none": no store or nothing stored); the stores that a run has to rewrite
Rewritten(c, tz, times, fresh) ==
    LET all == {Denotes(tz, times[i]) : i \in {i \in 1..c.n : times[i].k # "none"}}
               \cup (IF fresh.k = "none" THEN {} ELSE {Denotes(tz, fresh)})
        rank(x) == 1 + Cardinality({y \in all : Before2(y, x)})
        mt == [i \in 1..c.n |-> IF times[i].k = "none" THEN 0 ELSE rank(Denotes(tz, times[i]))]
    IN OutOfDate(c, mt, IF fresh.k = "none" THEN 0 ELSE rank(Denotes(tz, fresh))) \ c.src

\* A history fixes the instants (inst[i], <<0, 0>>: none; finst) and runs the plan under several zones and representations:
\*   [e |-> "ran", tz, times, fresh, ok, wrote]
InstClauses(c, p, e) ==
    CASE e.e = "ran" ->
            LET same(d, x) == IF d.k = "none" THEN x = <<0, 0>> ELSE Denotes(e.tz, d) = x IN
            Viol((\A i \in 1..c.n : same(e.times[i], p.inst[i])) /\ same(e.fresh, p.finst), "M.instants")
            \cup (IF ~e.ok THEN {"C18.raises"}
                  ELSE Viol(e.wrote = Rewritten(c, e.tz, e.times, e.fresh), "C18.decision"))
      [] OTHER -> {}
=============================================================================
