------------------------------ MODULE C03Trace ------------------------------
(***************************************************************************)
(* Timezone replacement, conversion and normalization of values, spans,    *)
(* entries and whole calendars.  The state is the sequence of the entries  *)
(* of a calendar, events and todos mixed.                                  *)
(***************************************************************************)
EXTENDS Timespan, TraceRun

HdrZones == Header.zones

MyStart(s) == [ents |-> [i \in 1..Len(s.kinds) |-> Empty(s.kinds[i])],
               local |-> s.local]

Diff(obs, want) ==
    IF obs.day # want.day THEN "wrong all-day flag"
    ELSE IF obs.rep # want.rep THEN "wrong end representation"
    ELSE IF obs.b # want.b THEN "wrong begin"
    ELSE IF obs.e # want.e THEN "wrong effective end"
    ELSE IF obs.d # want.d THEN "wrong effective duration"
    ELSE ""

One(s, i, r, ev, what) ==
    IF ev.ok # r.ok
    THEN Bad(IF r.ok THEN what \o " was rejected" ELSE what \o " was accepted",
             [before |-> s.ents[i], ev |-> ev])
    ELSE IF ~ev.rest THEN Bad(what \o " changed something else", ev)
    ELSE IF Diff(ev.obs, Obs(r.ts)) # ""
         THEN Bad(Diff(ev.obs, Obs(r.ts)) \o " after " \o what, Obs(r.ts))
    ELSE Good([s EXCEPT !.ents[i] = r.ts])

ExplainEdit(s, ev) == One(s, ev.i, Apply(s.ents[ev.i], ev, s.local), ev,
                          IF ev.op = "replacetz" THEN "replacing the timezone"
                          ELSE IF ev.op = "converttz" THEN "converting the timezone"
                          ELSE "an edit")

ExplainNormEntry(s, ev) ==
    One(s, ev.i, NormSpan(s.ents[ev.i], ev.n, s.local), ev, "normalizing an entry")

(* spans are values: the result is a new one *)
ExplainNormSpan(s, ev) ==
    LET r == NormSpan(s.ents[ev.i], ev.n, s.local)
    IN  IF ev.ok # r.ok
        THEN Bad("normalizing a span: wrongly " \o (IF ev.ok THEN "accepted" ELSE "rejected"),
                 s.ents[ev.i])
        ELSE IF Diff(ev.obs, Obs(s.ents[ev.i])) # ""
             THEN Bad("normalizing a span changed its entry", "")
        ELSE IF r.ok /\ Diff(ev.res, Obs(r.ts)) # ""
             THEN Bad(Diff(ev.res, Obs(r.ts)) \o " after normalizing a span", Obs(r.ts))
        ELSE Good(s)

ExplainNormValue(s, ev) ==
    LET want == IF ev.v = <<>> THEN <<>>
                ELSE <<PlainFold(NormValue(ev.v[1], ev.n, s.local))>>
    IN  IF ~ev.ok THEN Bad("normalizing a value was rejected", ev.v)
        ELSE IF ev.res # want THEN Bad("wrong normalized value", want)
        ELSE Good(s)

ExplainNormCal(s, ev) ==
    LET r == [i \in 1..Len(s.ents) |-> NormEntry(s.ents[i], ev.n, s.local)]
        ok == \A i \in 1..Len(s.ents) : r[i].ok
        wrong == {i \in 1..Len(s.ents) :
                    /\ Diff(ev.obs[i], Obs(r[i].ts)) # ""
                    /\ ok \/ Diff(ev.obs[i], Obs(s.ents[i])) # ""}
    IN  IF ev.ok # ok THEN Bad("normalizing a calendar: wrongly "
                               \o (IF ev.ok THEN "accepted" ELSE "rejected"), r)
        ELSE IF ~ev.order THEN Bad("normalizing a calendar changed its lists of entries", "")
        ELSE IF ~ev.rest THEN Bad("normalizing a calendar changed something else", "")
        ELSE IF wrong # {}
             THEN LET i == MinOf(wrong)
                  IN  Bad(Diff(ev.obs[i], Obs(r[i].ts)) \o " after normalizing a calendar",
                          [i |-> i, before |-> s.ents[i], want |-> Obs(r[i].ts)])
        ELSE Good([s EXCEPT !.ents =
                     [i \in 1..Len(s.ents) |->
                        IF Diff(ev.obs[i], Obs(r[i].ts)) = "" THEN r[i].ts ELSE s.ents[i]]])

MyExplain(s, ev) ==
    CASE ev.op = "normvalue" -> ExplainNormValue(s, ev)
      [] ev.op = "normspan"  -> ExplainNormSpan(s, ev)
      [] ev.op = "normentry" -> ExplainNormEntry(s, ev)
      [] ev.op = "normcal"   -> ExplainNormCal(s, ev)
      [] OTHER               -> ExplainEdit(s, ev)
=============================================================================
