------------------------------- MODULE Display -------------------------------
(***************************************************************************)
(* What a bundled progress display shows (C20), given the notifications it *)
(* receives and the clock.                                                 *)
(*                                                                         *)
(* p: n      number of scopes, 1..n (a scope together with its section)    *)
(*    sec    their sections                                                *)
(*    gap    no rendering may be overdue for longer than this              *)
(* Events carry the time `at` (whole seconds):                             *)
(*   [e |-> "note", at, k, sc, a]   a notification: k is "total" (with     *)
(*           amount a), "running", "completed" or "failed", for scope sc   *)
(*   [e |-> "shot", at, w, whole, rows, sums]  something was displayed:    *)
(*           rows: [sc, t, r, c, f, el, bv, bm] per scope, el the elapsed  *)
(*           time in seconds, bv and bm the value and maximum of the       *)
(*           progress bar (-1 if there is none); w: it was rendered at     *)
(*           some time in at-w..at; whole: it replaces what was displayed  *)
(*           before; sums: [sec, t, r, c, f] rows with the sums of a       *)
(*           section                                                       *)
(*   [e |-> "poll", at]    time has passed                                 *)
(*   [e |-> "died"]        the thread that updates the display has died    *)
(*   [e |-> "raised"]      a method of the observer has raised             *)
(*   [e |-> "over", at]    the observer has been exited                    *)
(*   [e |-> "ret", out, intr, live]  run has returned a value or raised;   *)
(*           intr: it had been interrupted; live: number of its threads    *)
(*           that have not exited, those of the display among them         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Viol(b, name) == IF b THEN {} ELSE {name}

Zero == [t |-> 0, r |-> 0, c |-> 0, f |-> 0]
Counts(x) == [t |-> x.t, r |-> x.r, c |-> x.c, f |-> x.f]

\* hist: per scope, the counts it has had and since when; bh: since when how many calls run, and how long some call had run until then
Start(p) == [hist |-> [k \in 1..p.n |-> <<[at |-> 0, v |-> Zero]>>],
             bh |-> <<[at |-> 0, run |-> 0, busy |-> 0]>>,
             shown |-> << >>, sums |-> {}, stale |-> 0, over |-> 0]   \* stale: when the oldest change happened that was not displayed yet

Now(s, k) == s.hist[k][Len(s.hist[k])].v
LastNote(s) == s.bh[Len(s.bh)].at

BusyAt(s, x) ==
    LET C == {i \in 1..Len(s.bh) : s.bh[i].at <= x} IN
    IF C = {} THEN 0
    ELSE LET b == s.bh[CHOOSE i \in C : \A j \in C : j <= i] IN b.busy + (IF b.run > 0 THEN x - b.at ELSE 0)

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

\* scope k had the counts v at some time in lo..; notifications of the same time may take effect in any order
Started(v) == v.r + v.c + v.f
Between(a, v, b) == /\ v.t \in a.t..b.t /\ v.c \in a.c..b.c /\ v.f \in a.f..b.f
                    /\ Started(v) \in Started(a)..Started(b) /\ v.r >= 0
Had(s, k, v, lo) ==
    LET h == s.hist[k] IN
    \/ \E i \in 1..Len(h) : h[i].v = v /\ (i = Len(h) \/ h[i + 1].at >= lo)
    \/ \E i, j \in 1..Len(h) :
        /\ i < j /\ h[i + 1].at = h[j].at /\ h[j].at >= lo
        /\ (i = 1 \/ h[i].at < h[j].at) /\ (j = Len(h) \/ h[j + 1].at > h[j].at)
        /\ Between(h[i].v, v, h[j].v)

BarOk(x) == x.bv = -1 \/ (x.bv = x.c + x.f /\ x.bm = x.t)
\* what is being rendered may be seen half-way: the bar's value, its maximum and the text are updated one after the other
BarHad(s, x, lo) ==
    LET h == s.hist[x.sc]
        V == {i \in 1..Len(h) : i = Len(h) \/ h[i + 1].at >= lo}
    IN \/ BarOk(x)
       \/ /\ \E i, j \in V : x.bv \in (h[i].v.c + h[i].v.f)..(h[j].v.c + h[j].v.f)
          /\ \E i \in V : x.bm = h[i].v.t

Rows(e) == {e.rows[i] : i \in 1..Len(e.rows)}
Shown(s, e) == LET new == [k \in {x.sc : x \in Rows(e)} |-> CHOOSE x \in Rows(e) : x.sc = k] IN IF e.whole THEN new ELSE new @@ s.shown
Elapsed(sh) == Sum([k \in DOMAIN sh |-> sh[k].el], DOMAIN sh)

Announced(s, p) == {k \in 1..p.n : Now(s, k).t > 0}

\* a row shows whole seconds, so that less than a second is missing per row
ElapsedOk(p, s, sh, lo, hi) == Elapsed(sh) \in (BusyAt(s, lo) - Cardinality(DOMAIN sh))..BusyAt(s, hi)

SumOf(p, s, x) ==
    LET S == {k \in 1..p.n : p.sec[k] = x} IN
    [t |-> Sum([k \in S |-> Now(s, k).t], S), r |-> Sum([k \in S |-> Now(s, k).r], S),
     c |-> Sum([k \in S |-> Now(s, k).c], S), f |-> Sum([k \in S |-> Now(s, k).f], S)]

Clauses(p, s, e) ==
    CASE e.e = "shot" ->
            Viol(\A x \in Rows(e) : Had(s, x.sc, Counts(x), e.at - e.w), "C20.shown")
            \cup Viol(\A x \in Rows(e) : IF e.w = 0 THEN BarOk(x) ELSE BarHad(s, x, e.at - e.w), "C20.bar")
            \cup Viol(ElapsedOk(p, s, Shown(s, e), e.at - e.w, e.at), "C20.elapsed")
      [] e.e = "poll" -> Viol(s.stale = 0 \/ e.at - s.stale <= p.gap, "C20.stops")
      [] e.e = "died" -> {"C20.raises"}
      [] e.e = "raised" -> {"C20.raises"}
      [] e.e = "hang" -> {"C20.hang"}
      [] e.e = "harness" -> {"M.harness"}
      [] e.e = "over" ->
            Viol(\A k \in Announced(s, p) : k \in DOMAIN s.shown /\ Counts(s.shown[k]) = Now(s, k), "C20.final")
            \cup Viol(\A k \in DOMAIN s.shown : BarOk(s.shown[k]), "C20.final-bar")
            \cup Viol(\A x \in s.sums : Counts(x) = SumOf(p, s, x.sec), "C20.final-sums")
            \cup Viol(ElapsedOk(p, s, s.shown, LastNote(s), e.at), "C20.final-elapsed")
      [] e.e = "ret" ->
            Viol(e.live = 0, "C07.threads-at-return")
            \cup (IF e.intr THEN Viol(e.live = 0, "C17.cleanup") \cup Viol(e.out = "KeyboardInterrupt", "C17.propagate")
                                \cup Viol(s.over = 1, "C17.observer") ELSE {})
      [] e.e = "note" /\ e.k # "total" ->   \* the harness sends legal notifications only
            Viol(e.k = "running" \/ Now(s, e.sc).r > 0, "M.order")
            \cup Viol(LET v == Now(s, e.sc) IN v.r + v.c + v.f <= v.t, "M.totals")
      [] OTHER -> {}

\* what happened too long ago to be displayed need not be remembered
RECURSIVE Trim(_, _)
Trim(q, lo) == IF Len(q) > 1 /\ q[2].at < lo THEN Trim(Tail(q), lo) ELSE q

Apply(p, s, e) ==
    CASE e.e = "note" ->
            LET v == Now(s, e.sc)
                w == CASE e.k = "total" -> [v EXCEPT !.t = @ + e.a]
                       [] e.k = "running" -> [v EXCEPT !.r = @ + 1]
                       [] e.k = "completed" -> [v EXCEPT !.r = @ - 1, !.c = @ + 1]
                       [] e.k = "failed" -> [v EXCEPT !.r = @ - 1, !.f = @ + 1]
                d == IF e.k = "total" THEN 0 ELSE IF e.k = "running" THEN 1 ELSE -1
            IN [s EXCEPT !.hist[e.sc] = Append(Trim(@, e.at - p.gap), [at |-> e.at, v |-> w]),
                         !.bh = Append(Trim(@, e.at - p.gap), [at |-> e.at, run |-> @[Len(@)].run + d, busy |-> BusyAt(s, e.at)]),
                         !.stale = IF @ = 0 THEN e.at ELSE @]
      [] e.e = "shot" ->
            [s EXCEPT !.shown = Shown(s, e), !.sums = {e.sums[i] : i \in 1..Len(e.sums)}, !.stale = 0]
      [] e.e = "over" -> [s EXCEPT !.over = @ + 1]
      [] OTHER -> s
=============================================================================
