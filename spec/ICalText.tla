------------------------------ MODULE ICalText ------------------------------
(* From text to components: folding, content lines and nesting together.   *)
EXTENDS ContentLine, Folding, Nesting

ParseLines(phys) ==
    LET u == Unfold(phys)
        ls == TLCEval([i \in 1..Len(u.v) |-> ParseLine(u.v[i])])
    IN  IF ~u.ok \/ \E i \in 1..Len(ls) : ~ls[i].ok THEN Failure
        ELSE Nest(TLCEval([i \in 1..Len(ls) |-> ls[i].v]))
ParseText(t) == ParseLines(PhysicalLines(t))

RECURSIVE PlainItem(_)
PlainItem(x) == IF x.t = "line" THEN [t |-> "line", l |-> Plain(x.l)]
                ELSE [x EXCEPT !.items = [i \in 1..Len(x.items) |-> PlainItem(x.items[i])]]
PlainItems(xs) == [i \in 1..Len(xs) |-> PlainItem(xs[i])]
=============================================================================
