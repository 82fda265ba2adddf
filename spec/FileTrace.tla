------------------------------ MODULE FileTrace -----------------------------
(***************************************************************************)
(* Recorded attempts to read a text, and to write and read again what was  *)
(* read (C23).                                                             *)
(***************************************************************************)
EXTENDS Files, TraceRun

TraceZones == Header.zones
MyStart(s) == <<>>

Polite == {"ParseError", "ValueError"}
ExplainRead(s, ev) ==
    LET k == Verdict(Header.names, ev.text)
    IN  IF ~ev.ok
        THEN IF ev.exc \notin Polite THEN Bad("a text was rejected with the wrong kind of error", ev.exc)
             ELSE IF k = "ok" THEN Bad("a valid calendar was rejected", ev.exc)
             ELSE Good(s)
        ELSE IF k = "bad" THEN Bad("a text that is no valid calendar was read", "")
        ELSE IF ~ev.out.ok
             THEN IF k = "ok" \/ ev.out.exc # "ValueError"
                  THEN Bad("a calendar that was read could not be written", ev.out.exc) ELSE Good(s)
        ELSE IF ~ev.again.ok THEN Bad("a calendar that was read and written could not be read again", ev.again.exc)
        ELSE IF ev.plain /\ ~ev.eq THEN Bad("a calendar that was read changes by writing and reading", "")
        ELSE Good(s)
ExplainParse(s, ev) ==
    LET r == Parsed(ev.text)
    IN  IF ~ev.ok /\ ev.exc \notin Polite THEN Bad("a text was rejected with the wrong kind of error", ev.exc)
        ELSE IF ev.ok # r.ok THEN Bad("the grammar is not respected", r.ok)
        ELSE Good(s)

MyExplain(s, ev) == IF ev.op = "read" THEN ExplainRead(s, ev) ELSE ExplainParse(s, ev)
=============================================================================
