---------------------------- MODULE SimpleTrace -----------------------------
(* Recorded components of simple values: read, assigned, written (C24).    *)
EXTENDS Simple, TraceRun

(* state: the values of every slot and the lines last written *)
MyStart(s) == [slots |-> s.slots, vals |-> [i \in 1..Len(s.slots) |-> <<>>], lines |-> <<>>]

LinesOf(lines, i) == SelectSeq(lines, LAMBDA l : l.s = i)
RECURSIVE Verdicts(_, _, _)
Verdicts(slot, lines, i) ==
    IF i > Len(lines) THEN <<>> ELSE LineReads(slot, lines[i].t) \o Verdicts(slot, lines, i + 1)
Fits(r, v) == r.k \in {"free", "any"} \/ r.v = v

ExplainRead(s, ev) ==
    LET n == Len(s.slots)
        ls(i) == LinesOf(ev.lines, i)
        rs == [i \in 1..n |-> Verdicts(s.slots[i], ls(i), 1)]
        twice == \E i \in 1..n : ~s.slots[i].many /\ Len(ls(i)) > 1
        has(ks) == \E i \in 1..n : \E j \in 1..Len(rs[i]) : rs[i][j].k \in ks
        fits(i) == Len(rs[i]) = Len(ev.vals[i])
                   /\ \A j \in 1..Len(rs[i]) : Fits(rs[i][j], ev.vals[i][j])
    IN  IF ~ev.ok /\ ev.exc # "ValueError" THEN Bad("reading raised the wrong kind of error", ev.exc)
        ELSE IF twice \/ has({"bad"})
        THEN IF ev.ok THEN Bad("a malformed value was read", rs) ELSE Good(s)
        ELSE IF ~ev.ok THEN IF has({"may", "free"}) THEN Good(s)
                            ELSE Bad("a well-formed value was rejected", rs)
        ELSE IF ~\A i \in 1..n : fits(i)
        THEN Bad("a value was read as another", CHOOSE x \in {<<i, rs[i]>> : i \in 1..n} : ~fits(x[1]))
        ELSE Good([s EXCEPT !.vals = ev.vals])

Written(slot, ls) ==     \* the texts of the single values
    LET RECURSIVE go(_)
        go(i) == IF i > Len(ls) THEN <<>> ELSE Parts(slot, ls[i].t) \o go(i + 1)
    IN  go(1)
Means(kind, t, v) == LET r == Read(kind, t) IN r.k \in {"any", "free"} \/ Stands(kind, v, r.v)
ExplainWrite(s, ev) ==
    LET n == Len(s.slots)
        ws(i) == Written(s.slots[i], LinesOf(ev.lines, i))
        odd == \E i \in 1..n : \E j \in 1..Len(s.vals[i]) : "odd" \in DOMAIN s.vals[i][j]
        form(i) == \A j \in 1..Len(ws(i)) : StrictForm(s.slots[i].kind, ws(i)[j])
        same(i) == /\ Len(ws(i)) = Len(s.vals[i])
                   /\ \A j \in 1..Len(s.vals[i]) : Means(s.slots[i].kind, ws(i)[j], s.vals[i][j])
    IN  IF odd THEN IF ev.ok \/ ev.exc # "ValueError" THEN Bad("a value without a text was written", ev.exc)
                    ELSE Good(s)
        ELSE IF ~ev.ok THEN Bad("a value was not written", ev.exc)
        ELSE IF \E i \in 1..n : ~form(i)
        THEN Bad("a value was written in another form", CHOOSE i \in 1..n : ~form(i))
        ELSE IF \E i \in 1..n : ~same(i)
        THEN Bad("another value was written", CHOOSE i \in 1..n : ~same(i))
        ELSE Good([s EXCEPT !.lines = ev.lines])

ExplainAgain(s, ev) ==
    LET n == Len(s.slots)
        same(i) == /\ Len(ev.vals[i]) = Len(s.vals[i])
                   /\ \A j \in 1..Len(s.vals[i]) : Stands(s.slots[i].kind, s.vals[i][j], ev.vals[i][j])
    IN  IF ~ev.ok THEN Bad("a written value was rejected", ev.exc)
        ELSE IF \E i \in 1..n : ~same(i)
        THEN Bad("a written value was read as another", CHOOSE i \in 1..n : ~same(i))
        ELSE Good([s EXCEPT !.vals = ev.vals])

MyExplain(s, ev) ==
    CASE ev.op = "read" -> ExplainRead(s, ev)
      [] ev.op = "set" -> Good([s EXCEPT !.vals[ev.s] = ev.vals])
      [] ev.op = "write" -> ExplainWrite(s, ev)
      [] ev.op = "again" -> ExplainAgain(s, ev)
=============================================================================
