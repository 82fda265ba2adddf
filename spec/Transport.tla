----------------------------- MODULE Transport ------------------------------
(***************************************************************************)
(* How the text of a calendar is supplied (C19).  Whatever the form, only  *)
(* the tree of components it stands for matters, and exactly one calendar  *)
(* component must be in it.                                                *)
(***************************************************************************)
EXTENDS ICalText

TVCALENDAR == <<86, 67, 65, 76, 69, 78, 68, 65, 82>>

(* the tree of a supplied text: one string, or lines with or without ends *)
TreeOf(form, pieces) ==
    IF form = "string" THEN ParseText(pieces[1]) ELSE ParseLines(pieces)

IsCalendar(x) == x.t = "comp" /\ x.name = TVCALENDAR
(* the component to read, if any *)
Chosen(r) == IF r.ok /\ Len(r.v) = 1 /\ IsCalendar(r.v[1]) THEN Result(r.v[1]) ELSE Failure

(* the pieces of an iterated calendar *)
EndsWithCrlf(l) == Len(l) >= 2 /\ l[Len(l)] = LF /\ l[Len(l) - 1] = CR
IteratedRight(ls, t) ==
    IF Concat(ls) # t THEN "joining the iterated lines does not give the serialized text"
    ELSE IF \E i \in 1..(Len(ls) - 1) : ~EndsWithCrlf(ls[i])
         THEN "an iterated line does not end with a line break"
    ELSE IF \E i \in 1..Len(ls) : HasAny(IF i < Len(ls) THEN Until(ls[i], Len(ls[i]) - 1) ELSE ls[i],
                                         {LF, CR})
         THEN "an iterated piece is more than one line"
    ELSE ""

(***************************************************************************)
(* Rewritings of a text that may not matter.                               *)
(***************************************************************************)
Insert(t, p, x) == SubSeq(t, 1, p) \o x \o From(t, p + 1)
InLine(t, p) == p > 0 /\ p < Len(t) /\ t[p] \notin {CR, LF} /\ t[p + 1] \notin {CR, LF}
Endings == {<<CR, LF>>, <<LF>>, <<CR>>}
AtStart(t, p) == p = 0 \/ t[p] = LF \/ (t[p] = CR /\ (p = Len(t) \/ t[p + 1] # LF))
(* behind a lone CR, a bare LF would complete the pair; before LF, a CR would *)
FreshEnd(t, p, e) == /\ ~(p > 0 /\ t[p] = CR /\ e[1] = LF)
                     /\ ~(p < Len(t) /\ t[p + 1] = LF /\ e[Len(e)] = CR)

Folds(t) == {Insert(t, p, e \o <<c>>) : p \in {q \in 1..Len(t) : InLine(t, q)},
                                         e \in Endings, c \in {SP, HTAB}}
Blanks(t) == UNION {{Insert(t, p, e) : e \in {x \in Endings : FreshEnd(t, p, x)}} :
                      p \in {q \in 0..Len(t) : AtStart(t, q)}}
WithEnds(t, e) == LET ls == PhysicalLines(t) IN Join(ls, e)
Ended(t) == {WithEnds(t, e) : e \in Endings}

(* the letters of property names, and of component names behind BEGIN and END *)
Flip(c) == CASE 97 <= c /\ c <= 122 -> c - 32 [] 65 <= c /\ c <= 90 -> c + 32 [] OTHER -> c
NameEnd(l) == LET j == Find(l, {COLON, SEMI}, 1)
              IN  IF Upper(Until(l, j)) \in {TBEGIN, TEND} THEN Len(l) ELSE j - 1
RECURSIVE FlipLine(_, _, _)
FlipLine(ls, i, p) ==      \* flip letter p of the text joined by CRLF
    IF p <= Len(ls[i])
    THEN IF p <= NameEnd(ls[i]) /\ Flip(ls[i][p]) # ls[i][p]
         THEN {[ls EXCEPT ![i][p] = Flip(@)]} ELSE {}
    ELSE {}
Flips(t) ==
    LET ls == PhysicalLines(t)
    IN  {WithEnds2 : WithEnds2 \in UNION {UNION {{Join(x, <<CR, LF>>) : x \in FlipLine(ls, i, p)} :
                                    p \in 1..Len(ls[i])} : i \in 1..Len(ls)}}
=============================================================================
