------------------------------ MODULE C01Trace ------------------------------
(* Recorded edit histories of real events and todos against Timespan.      *)
EXTENDS Timespan, TraceRun

HdrZones == Header.zones
Local(s) == s.local

MyStart(s) == [ts |-> Empty(s.kind), local |-> s.local]

MyExplain(s, ev) ==
    LET r == Apply(s.ts, ev, s.local)
        obs == Obs(r.ts)
    IN  IF ev.ok # r.ok
        THEN Bad(IF r.ok THEN "a valid edit was rejected" ELSE "an invalid edit was accepted",
                 [before |-> s.ts, op |-> ev.op, v |-> ev.v])
        ELSE IF ev.obs = obs THEN Good([s EXCEPT !.ts = r.ts])
        ELSE IF ~r.ok THEN Bad("a rejected edit changed the entry", obs)
        ELSE IF ev.obs.rep # obs.rep
             THEN Bad("wrong end representation after an edit", obs)
        ELSE IF ev.obs.day # obs.day THEN Bad("wrong all-day flag after an edit", obs)
        ELSE IF ev.obs.b # obs.b THEN Bad("wrong begin after an edit", obs)
        ELSE IF ev.obs.e # obs.e THEN Bad("wrong effective end after an edit", obs)
        ELSE Bad("wrong effective duration after an edit", obs)
=============================================================================
