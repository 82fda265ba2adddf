---------------------------- MODULE EntriesTrace ----------------------------
(***************************************************************************)
(* Recorded sessions on a set of entries: edits, comparisons, sorting,     *)
(* interval predicates and timeline queries (C04, C05, C06).               *)
(*   s.ents  sequence of [ts, sum]    s.cal  event numbers in the calendar *)
(***************************************************************************)
EXTENDS Schedule, TraceRun

HdrZones == Header.zones

MyStart(s) == [ents |-> [i \in 1..Len(s.kinds) |-> [ts |-> Empty(s.kinds[i]), sum |-> <<>>]],
               local |-> s.local, cal |-> <<>>]

ExplainEdit(s, ev) ==
    LET r == Apply(s.ents[ev.i].ts, ev, s.local)
    IN  IF ev.ok # r.ok \/ ev.obs # Obs(r.ts)
        THEN Bad("an edit has the wrong effect", [want |-> Obs(r.ts), ok |-> r.ok])
        ELSE Good([s EXCEPT !.ents[ev.i].ts = r.ts])

ExplainCmp(s, ev) ==
    LET want == Cmp(s.ents[ev.i], s.ents[ev.j], s.local)
    IN  IF ev.res # want
        THEN Bad("wrong comparison result", [want |-> want, x |-> s.ents[ev.i], y |-> s.ents[ev.j]])
        ELSE Good(s)

Perm(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])

ExplainSort(s, ev) ==
    LET key(i) == Key(s.ents[i], s.local)
    IN  IF ~ev.ok THEN Bad("sorting raised", ev)
        ELSE IF ~Perm(ev.in, ev.res) THEN Bad("sorting lost or duplicated entries", ev)
        ELSE IF \E k \in 1..(Len(ev.res) - 1) : KeyLt(key(ev.res[k + 1]), key(ev.res[k]))
             THEN Bad("wrong sort order", [k \in 1..Len(ev.res) |-> key(ev.res[k])])
        ELSE Good(s)

(* the extreme element of a collection *)
ExplainMin(s, ev) ==
    LET key(i) == Key(s.ents[i], s.local)
    IN  IF ev.ok /\ \A k \in 1..Len(ev.in) :
              IF ev.max THEN ~KeyLt(key(ev.res), key(ev.in[k])) ELSE ~KeyLt(key(ev.in[k]), key(ev.res))
        THEN Good(s) ELSE Bad("wrong minimum or maximum", ev)

ExplainForeign(s, ev) ==
    IF ev.res = "TypeError" THEN Good(s)
    ELSE Bad("ordering against something else did not raise TypeError", ev)

ExplainPred(s, ev) ==
    LET x == s.ents[ev.i].ts
        y == s.ents[ev.j].ts
        want == Predicate(ev.name, x, y, s.local)
    IN  IF ev.res # want
        THEN Bad("wrong answer of " \o ev.name, [want |-> want, x |-> x, y |-> y])
        ELSE Good(s)

ExplainInstant(s, ev) ==
    LET x == s.ents[ev.i].ts
        want == IncludesInstant(x, ev.t, s.local)
    IN  IF ev.res # want
        THEN Bad("wrong answer of includes(instant)", [want |-> want, x |-> x])
        ELSE Good(s)

(***************************************************************************)
(* Timeline.                                                               *)
(***************************************************************************)
Normed(ts, ev, l) == IF ev.n = <<>> \/ ts.day THEN ts ELSE NormSpan(ts, ev.n[1], l).ts
NormedT(t, ev, l) == IF ev.n = <<>> THEN t ELSE NormValue(t, ev.n[1], l)

Query(ev, l) ==
    CASE ev.q = "all"         -> [op |-> "all"]
      [] ev.q \in {"included", "overlapping"} ->
            [op |-> ev.q, span |-> Normed(ev.span, ev, l)]
      [] ev.q \in {"start_after", "at"} -> [op |-> ev.q, t |-> NormedT(ev.t, ev, l)]
      [] ev.q = "on"          -> [op |-> IF ev.strict THEN "included" ELSE "overlapping",
                                  span |-> Normed(Day(ev.t), ev, l)]

ExplainQuery(s, ev) ==
    LET l == s.local
        q == Query(ev, l)
        sp == [i \in 1..Len(s.ents) |-> Normed(s.ents[i].ts, ev, l)]
        hits == SelectSeq(s.cal, LAMBDA i : Some(sp[i].b) /\ Selected(q, sp[i], l))
    IN  IF ~ev.ok THEN Bad("timeline query " \o ev.q \o " raised", ev)
        ELSE IF ~ev.same THEN Bad("timeline query " \o ev.q \o " changed the calendar", ev)
        ELSE IF \E k \in 1..Len(ev.res) : Count(ev.res, ev.res[k]) > Count(hits, ev.res[k])
             THEN Bad("timeline query " \o ev.q \o " yielded an event that does not match", hits)
        ELSE IF Len(ev.res) # Len(hits)
             THEN Bad("timeline query " \o ev.q \o " missed a matching event", hits)
        ELSE IF ~OrderedBySpan([k \in 1..Len(ev.res) |-> sp[ev.res[k]]], l)
             THEN Bad("timeline query " \o ev.q \o " is not in chronological order", hits)
        ELSE Good(s)

MyExplain(s, ev) ==
    CASE ev.op = "summary" -> Good([s EXCEPT !.ents[ev.i].sum = ev.v])
      [] ev.op = "cal"     -> Good([s EXCEPT !.cal = ev.v])
      [] ev.op = "cmp"     -> ExplainCmp(s, ev)
      [] ev.op = "sort"    -> ExplainSort(s, ev)
      [] ev.op = "min"     -> ExplainMin(s, ev)
      [] ev.op = "foreign" -> ExplainForeign(s, ev)
      [] ev.op = "pred"    -> ExplainPred(s, ev)
      [] ev.op = "instant" -> ExplainInstant(s, ev)
      [] ev.op = "query"   -> ExplainQuery(s, ev)
      [] OTHER             -> ExplainEdit(s, ev)
=============================================================================
