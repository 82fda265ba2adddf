--------------------------- MODULE TransportTrace ---------------------------
(***************************************************************************)
(* Recorded readings.  The state knows what every calendar component seen  *)
(* so far was read as: a sequence of [item, ok, id].                       *)
(***************************************************************************)
EXTENDS Transport, TraceRun

MyStart(s) == <<>>

Lookup(s, item) == {i \in 1..Len(s) : s[i].item = item}

(* an outcome for one calendar component *)
Judge(s, item, ok, id) ==
    LET have == Lookup(s, item)
    IN  IF have = {} THEN Good(Append(s, [item |-> item, ok |-> ok, id |-> id]))
        ELSE LET k == CHOOSE i \in have : TRUE
             IN  IF s[k].ok = ok /\ s[k].id = id THEN Good(s)
                 ELSE Bad("the same calendar supplied in another form is read differently", s[k])

Broken(ev) == ~ev.ok /\ ev.exc \in {"Hang", "RecursionError"}

ExplainRead(s, ev) ==
    LET r == IF ev.form = "container" THEN ParseText(ev.pieces[1]) ELSE TreeOf(ev.form, ev.pieces)
        c == IF ev.form = "container" /\ r.ok
             THEN IF IsCalendar(r.v[ev.i]) THEN Result(r.v[ev.i]) ELSE Failure
             ELSE Chosen(r)
    IN  IF Broken(ev) THEN Bad("reading did not finish", ev.exc)
        ELSE IF ~c.ok THEN IF ev.ok THEN Bad("something that is not one calendar was read", r)
                           ELSE Good(s)
        ELSE IF ~ev.eq THEN Bad("a calendar read again is not equal", ev.id)
        ELSE Judge(s, c.v, ev.ok, ev.id)

RECURSIVE JudgeAll(_, _, _, _)
JudgeAll(s, items, ids, i) ==
    IF i > Len(items) THEN Good(s)
    ELSE LET r == Judge(s, items[i], TRUE, ids[i])
         IN  IF r.c = "" THEN JudgeAll(r.s, items, ids, i + 1) ELSE r

ExplainMulti(s, ev) ==
    LET r == ParseText(ev.pieces[1])
    IN  IF Broken(ev) THEN Bad("reading did not finish", ev.exc)
        ELSE IF ~r.ok \/ \E i \in 1..Len(r.v) : ~IsCalendar(r.v[i])
             THEN IF ev.ok THEN Bad("something that is no calendar was read", r) ELSE Good(s)
        ELSE IF ev.ok
             THEN IF Len(ev.ids) # Len(r.v) THEN Bad("wrong number of calendars", Len(r.v))
                  ELSE IF ~ev.eq THEN Bad("a calendar read among others is not equal", ev.ids)
                  ELSE JudgeAll(s, r.v, ev.ids, 1)
        ELSE IF Len(r.v) > 0 /\ \A i \in 1..Len(r.v) :
                   \E k \in Lookup(s, r.v[i]) : s[k].ok
             THEN Bad("calendars that can be read alone cannot be read together", ev.exc)
        ELSE IF Len(r.v) = 0 THEN Bad("an empty text has no list of calendars", ev.exc)
        ELSE Good(s)

ExplainIter(s, ev) ==
    LET c == IteratedRight(ev.lines, ev.text)
    IN  IF ~ev.ok THEN Bad("iterating a calendar raised", ev.exc)
        ELSE IF c # "" THEN Bad(c, ev.text)
        ELSE Good(s)

MyExplain(s, ev) ==
    CASE ev.op = "read"  -> ExplainRead(s, ev)
      [] ev.op = "multi" -> ExplainMulti(s, ev)
      [] ev.op = "iter"  -> ExplainIter(s, ev)
=============================================================================
