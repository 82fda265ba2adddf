------------------------------ MODULE TzTrace -------------------------------
(***************************************************************************)
(* Recorded sessions over several calendars.  The state is the zones made  *)
(* from definitions (zs) and the slots of every calendar (cals).           *)
(***************************************************************************)
EXTENDS TzRefs, TraceRun

(* the header gives the texts of the built-in definitions, under their name *)
(* and under the TZID they give themselves, and the names                  *)
TraceBuiltinIds == {Header.builtin[i].id : i \in 1..Len(Header.builtin)}
TraceBuiltinDef(id) ==
    LET i == CHOOSE k \in 1..Len(Header.builtin) : Header.builtin[k].id = id
    IN  DefOf(ZonesIn(ParseText(Header.builtin[i].text).v, 1)[1]).v
TraceWindows == TLCEval([n \in {Header.windows[i].id : i \in 1..Len(Header.windows)} |->
                   Header.windows[CHOOSE i \in 1..Len(Header.windows) : Header.windows[i].id = n].to])
TraceKnown == {Header.system[i] : i \in 1..Len(Header.system)}

MyStart(s) == [zs |-> <<>>, cals |-> <<>>]

(* slots as the harness made them: a zone from a definition has z > 0 *)
Made(s, x) == [uid |-> x.uid, p |-> x.p, k |-> x.k, w |-> x.w,
               off |-> IF x.z > 0 THEN OffAt(s.zs[x.z], x.w) ELSE x.off]
MadeAll(s, xs) == {TLCEval(Made(s, xs[i])) : i \in 1..Len(xs)}
Of(slots, uid) == {x \in slots : x.uid = uid}

CalOf(text) == LET p == ParseText(text)
               IN  IF p.ok /\ Len(p.v) = 1 /\ p.v[1].t = "comp" /\ p.v[1].name = WVCALENDAR
                   THEN Result(p.v[1]) ELSE Failure

ExplainZone(s, ev) ==
    LET d == DefOf(ZonesIn(ParseText(ev.text).v, 1)[1])
    IN  IF ~ev.ok THEN Bad("a valid timezone definition was rejected", ev.exc)
        ELSE Good([s EXCEPT !.zs = Append(@, TLCEval(d.v))])

ExplainWrite(s, ev) ==
    LET slots == s.cals[ev.c]
        odd == \E x \in slots : x.k = "odd"
        c == CalOf(ev.text)
        w == IF c.ok THEN WriteWrong(slots, c.v) ELSE "what is written is no calendar"
    IN  IF ~ev.ok THEN IF odd /\ ev.exc = "ValueError" THEN Good(s)
                       ELSE Bad("a calendar could not be written", ev.exc)
        ELSE IF w # "" THEN Bad(w, slots)
        ELSE Good(s)

ExplainRead(s, ev) ==
    LET c == CalOf(ev.text)
        r == ReadSlots(RawSlots(c.v), Defined(c.v), ev.sys)
    IN  IF ~r.ok THEN IF ~ev.ok /\ ev.exc = "ValueError" THEN Good([s EXCEPT !.cals = Append(@, {})])
                      ELSE Bad("an unknown TZID did not raise ValueError", ev.exc)
        ELSE IF ~ev.ok THEN Bad("a calendar with known timezones was rejected", ev.exc)
        ELSE IF Len(ev.obs) # Cardinality(r.v)
                \/ \E x \in r.v : ~\E i \in 1..Len(ev.obs) : SeenAs(x, ev.obs[i])
             THEN Bad("a time is read as something else", r.v)
        ELSE Good([s EXCEPT !.cals = Append(@, TLCEval(r.v))])

MyExplain(s, ev) ==
    CASE ev.op = "zone"  -> ExplainZone(s, ev)
      [] ev.op = "new"   -> Good([s EXCEPT !.cals = Append(@, {})])
      [] ev.op = "put"   ->
           IF ~ev.ok THEN Bad("a time could not be assigned", ev.exc)
           ELSE Good([s EXCEPT !.cals[ev.c] = @ \cup MadeAll(s, ev.slots)])
      [] ev.op = "drop"  -> Good([s EXCEPT !.cals[ev.c] = @ \ Of(@, ev.uid)])
      [] ev.op = "share" -> Good([s EXCEPT !.cals[ev.to] = @ \cup Of(s.cals[ev.c], ev.uid)])
      [] ev.op = "write" -> ExplainWrite(s, ev)
      [] ev.op = "read"  -> ExplainRead(s, ev)
=============================================================================
