------------------------------ MODULE VtzTrace ------------------------------
(***************************************************************************)
(* Recorded histories of one timezone definition: read (or built), written *)
(* alone or with a calendar using it, and read again.  The definition must *)
(* stay the same throughout, and so must its text once it was read and     *)
(* written (a zone just built may leave out that DTSTART is an RDATE).     *)
(***************************************************************************)
EXTENDS Vtimezones, TraceRun

MyStart(s) == [d |-> <<>>, t |-> <<>>]

Zones(text) == LET p == ParseText(text) IN IF p.ok THEN ZonesIn(p.v, 1) ELSE <<>>
Def(text) == LET zs == Zones(text) IN IF Len(zs) # 1 THEN Failure ELSE TzDef(zs[1])
Differs(a, b) ==      \* where two definitions differ
    IF Len(a.obs) # Len(b.obs) THEN <<"number of observances", Len(a.obs), Len(b.obs)>>
    ELSE LET fs == {f \in {"id", "url", "mod", "x"} : a[f] # b[f]}
             os == {<<i, f>> \in (1..Len(a.obs)) \X {"kind", "from", "to", "name", "comment", "dates",
                                                    "ex", "rules", "x"} : a.obs[i][f] # b.obs[i][f]}
         IN  <<{<<f, a[f], b[f]>> : f \in fs}, {<<o, a.obs[o[1]][o[2]], b.obs[o[1]][o[2]]>> : o \in os}>>

ExplainRead(s, ev) ==
    LET d == TLCEval(Def(ev.text))
    IN  IF ~d.ok THEN IF ev.ok THEN Bad("a malformed definition was read", ev.text)
                      ELSE IF ev.exc # "ValueError" THEN Bad("a definition was rejected with the wrong kind of error", ev.exc)
                      ELSE Good(s)
        ELSE IF ~ev.ok THEN Bad("a valid definition was rejected", ev.exc)
        ELSE Good([d |-> d.v, t |-> <<>>])
(* one definition in a text, the same as before *)
Written(s, ev, what) ==
    LET d == TLCEval(Def(ev.text))
    IN  IF ~ev.ok THEN Bad(what \o " could not be written", ev.exc)
        ELSE IF ~d.ok THEN Bad(what \o ": no valid definition is written", ev.text)
        ELSE IF d.v # s.d THEN Bad(what \o ": another definition is written", Differs(s.d, d.v))
        ELSE Good(s)
ExplainWrite(s, ev) ==
    LET r == Written(s, ev, "a timezone")
    IN  IF r.c # "" THEN r
        ELSE IF s.t # <<>> /\ ev.text # s.t THEN Bad("the text changes by reading and writing it", ev.text)
        ELSE Good([s EXCEPT !.t = IF ev.built THEN <<>> ELSE ev.text])

MyExplain(s, ev) ==
    CASE ev.op = "read" -> ExplainRead(s, ev)
      [] ev.op = "write" -> ExplainWrite(s, ev)
      [] ev.op = "again" -> IF ~ev.ok THEN Bad("a written definition was rejected", ev.exc)
                            ELSE IF ~ev.eq THEN Bad("a written definition is read as another timezone", "")
                            ELSE Good(s)
      [] ev.op = "cal" -> LET r == Written(s, ev, "a calendar in a timezone")
                          IN  IF r.c # "" THEN r
                              ELSE IF ~ev.eq THEN Bad("a calendar is read back with another timezone", "")
                              ELSE Good(s)
=============================================================================
