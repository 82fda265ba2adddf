--------------------------- MODULE TemporalTrace ----------------------------
(* Recorded calls of the temporal value converters (C12).                  *)
EXTENDS Temporal, TraceRun

MyStart(s) == <<>>

Known == {Header.known[i] : i \in 1..Len(Header.known)}

ExplainWrite(s, ev) ==
    LET w == Write(ev.kind, ev.v)
    IN  IF ~ev.ok THEN Bad("writing a " \o ev.kind \o " raised", ev.exc)
        ELSE IF ev.t # w.t THEN Bad("a " \o ev.kind \o " was written wrongly", w.t)
        ELSE IF ev.tz # w.tz THEN Bad("a " \o ev.kind \o " was written with wrong TZID", w.tz)
        ELSE IF ~ev.kept THEN Bad("writing a value changed other parameters", "")
        ELSE IF ~ev.back.ok THEN Bad("a written " \o ev.kind \o " was not read back", ev.back.exc)
        ELSE IF ev.back.res # ev.v THEN Bad("a " \o ev.kind \o " was read back as another value", ev.v)
        ELSE Good(s)

MyExplain(s, ev) ==
    IF ev.op = "write" THEN ExplainWrite(s, ev)
    ELSE LET r == Read(ev.kind, ev.t, ev.tz, Known)
             c == Judge(r, ev)
         IN  IF c = "" THEN Good(s) ELSE Bad(c \o " (" \o ev.kind \o ")", r)
=============================================================================
