------------------------------ MODULE MC_Text -------------------------------
(***************************************************************************)
(* Exhaustive enumeration of short texts for C07, C08, C09 and C11, with   *)
(* the laws of the codecs as invariants.  Mode selects the enumeration.    *)
(***************************************************************************)
EXTENDS TextValue, ICalText, Json, TLC

CONSTANTS Mode, Alphabet, MaxLen, Frames

(* what stands before and after the enumerated text *)
NoFrame == {<< <<>>, <<>> >>}
ParamFrames == {<<<<>>, <<>> >>, <<<<65, 59, 80, 61>>, <<>> >>, <<<<97, 59, 80, 61, 34>>, <<>> >>, <<<<65, 59, 80, 61, 98, 44>>, <<>> >>}
(* with every printable character in the place of the enumerated text:
   A;P=b^_:v  A;P="b^_":v  A;P=b_,c:v  A;P="b_";Q=c:v  A;P="b"_:v  A;P_=b:v  A_:v  A;P=b:v_w  A;P=_;Q=c:v *)
LineFrames ==
    {<<<<65, 59, 80, 61, 98, 94>>, <<58, 118>>>>,
     <<<<65, 59, 80, 61, 34, 98, 94>>, <<34, 58, 118>>>>,
     <<<<65, 59, 80, 61, 98>>, <<44, 99, 58, 118>>>>,
     <<<<65, 59, 80, 61, 34, 98>>, <<34, 59, 81, 61, 99, 58, 118>>>>,
     <<<<65, 59, 80, 61, 34, 98, 34>>, <<58, 118>>>>,
     <<<<65, 59, 80>>, <<61, 98, 58, 118>>>>,
     <<<<65>>, <<58, 118>>>>,
     <<<<65, 59, 80, 61, 98, 58, 118>>, <<119>>>>,
     <<<<65, 59, 80, 61>>, <<59, 81, 61, 99, 58, 118>>>>}
(* _  a\_  a\_b  \\_  a,_b  a_ *)
ValueFrames ==
    {<<<<>>, <<>>>>,
     <<<<97, 92>>, <<>>>>,
     <<<<97, 92>>, <<98>>>>,
     <<<<92, 92>>, <<>>>>,
     <<<<97, 44>>, <<98>>>>,
     <<<<97>>, <<>>>>}

VARIABLE x

Out(r) == PrintT("VPJ" \o ToJson(r))

(* texts and prefixed texts *)
TextInit == x \in {[pre |-> p[1], t |-> <<>>, post |-> p[2]] : p \in Frames}
TextNext == /\ Len(x.t) < MaxLen
            /\ \E c \in Alphabet : x' = [x EXCEPT !.t = Append(@, c)]
Txt == x.pre \o x.t \o x.post

(* lists of texts of bounded total length *)
RECURSIVE SumLen(_, _)
SumLen(vs, i) == IF i > Len(vs) THEN 0 ELSE Len(vs[i]) + 1 + SumLen(vs, i + 1)
ListInit == x = << <<>> >>
ListNext == /\ SumLen(x, 1) <= MaxLen
            /\ \/ x' = Append(x, <<>>)
               \/ \E c \in Alphabet : x' = [x EXCEPT ![Len(x)] = Append(@, c)]

(* sequences of content lines *)
Tok(n, v) == Line(n, <<>>, v)
Tokens == {Tok(TBEGIN, <<65>>), Tok(TBEGIN, <<97>>), Tok(TBEGIN, <<66>>), Tok(TEND, <<65>>),
           Tok(TEND, <<98>>), Tok(<<88>>, <<49>>), Tok(TBEGIN, <<>>), Tok(TEND, <<>>)}
NestInit == x = <<>>
NestNext == /\ Len(x) < MaxLen
            /\ \E k \in Tokens : x' = Append(x, k)

Init == CASE Mode = "list" -> ListInit [] Mode = "nest" -> NestInit [] OTHER -> TextInit
Next == CASE Mode = "list" -> ListNext [] Mode = "nest" -> NestNext [] OTHER -> TextNext
Spec == Init /\ [][Next]_x

(***************************************************************************)
(* Reports, evaluated once per state.                                      *)
(***************************************************************************)
ReportValue == Out([t |-> Txt, esc |-> Escape(Txt), un |-> Unescape(Txt),
                    vals |-> Values(Txt)])
ReportList == Out([vs |-> x, join |-> JoinList([i \in 1..Len(x) |-> Escape(x[i])])])
ReportLine == Out([t |-> Txt, r |-> ParseLine(Txt)])
ReportText == Out([t |-> Txt, r |-> ParseText(Txt)])
ReportNest == Out([ls |-> x, r |-> Nest(x)])

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
EscapeRoundTrip ==
    /\ Unescape(Escape(Txt)) = Result(Txt)
    /\ ~HasAny(Escape(Txt), {LF, CR})
    /\ SplitList(Escape(Txt)) = Result(<<Escape(Txt)>>)
UnescapeInverse ==          \* what decodes is (up to \N, \R) what encodes
    LET u == Unescape(Txt)
    IN  u.ok => Unescape(Escape(u.v)) = u
ListRoundTrip == Values(JoinList([i \in 1..Len(x) |-> Escape(x[i])])) = Result(x)

WriteRoundTrip ==
    LET r == ParseLine(Txt)
        w == ParseLine(WriteLine(r.v))
    IN  r.ok => /\ w.ok /\ Plain(w.v) = Plain(r.v)
                /\ QuotedWhereNeeded(r.v, w.v)
ParsedIsSane ==
    LET r == ParseLine(Txt)
    IN  r.ok => /\ HasAny(Txt, {COLON})
                /\ ~HasAny(r.v.name, {COLON, SEMI})
                /\ \A k \in 1..Len(r.v.params) :
                     /\ Len(r.v.params[k].vals) > 0
                     /\ \A j \in 1..Len(r.v.params) :
                          r.v.params[k].n = r.v.params[j].n => k = j

(* every way of folding a line, with every line ending, unfolds to it *)
Ends == {<<CR, LF>>, <<LF>>, <<CR>>}
FoldAt(l, cuts, e, c) ==
    Concat([i \in 1..Len(l) |-> IF (i - 1) \in cuts THEN e \o <<c, l[i]>> ELSE <<l[i]>>])
FoldRoundTrip ==
    (Len(Txt) > 0 /\ ~HasAny(Txt, {CR, LF}) /\ ~IsCont(Txt)) =>
        \A cuts \in SUBSET (1..(Len(Txt) - 1)) : \A e \in Ends : \A c \in {SP, HTAB} :
            UnfoldText(FoldAt(Txt, cuts, e, c)) = Result(<<Txt>>)

NestRoundTrip ==
    LET r == Nest(x)
    IN  r.ok => Nest(FlattenAll(r.v, 1)) = r
Opens == Len(SelectSeq(x, LAMBDA l : l.name = TBEGIN))
RECURSIVE Size(_, _)
Size(xs, i) == IF i > Len(xs) THEN 0
               ELSE (IF xs[i].t = "line" THEN 1 ELSE 2 + Size(xs[i].items, 1)) + Size(xs, i + 1)
NestKeepsEverything ==
    LET r == Nest(x) IN r.ok => Size(r.v, 1) = Len(x)
=============================================================================
