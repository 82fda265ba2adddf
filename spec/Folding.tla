------------------------------ MODULE Folding -------------------------------
(* Physical lines, folding and unfolding (C08).                            *)
EXTENDS Text

(* CRLF, LF and CR all end a line *)
RECURSIVE PhysFrom(_, _, _)
PhysFrom(t, i, start) ==
    LET j == Find(t, {CR, LF}, i)
    IN  IF j > Len(t) THEN <<SubSeq(t, start, Len(t))>>
        ELSE LET k == IF t[j] = CR /\ j < Len(t) /\ t[j + 1] = LF THEN j + 2 ELSE j + 1
             IN  <<SubSeq(t, start, j - 1)>> \o PhysFrom(t, k, k)
PhysicalLines(t) == PhysFrom(t, 1, 1)

RECURSIVE StripEnd(_)
StripEnd(l) == IF l # <<>> /\ l[Len(l)] \in {CR, LF} THEN StripEnd(SubSeq(l, 1, Len(l) - 1)) ELSE l

IsCont(l) == l[1] \in {SP, HTAB}

(* unfold a sequence of physical lines, whose ends may be left on them *)
RECURSIVE UnfoldFrom(_, _, _)
UnfoldFrom(ls, i, acc) ==
    IF i > Len(ls) THEN Result(acc)
    ELSE LET l == StripEnd(ls[i])
         IN  IF l = <<>> THEN UnfoldFrom(ls, i + 1, acc)
             ELSE IF HasAny(l, {CR, LF}) THEN Failure
             ELSE IF IsCont(l)
                  THEN IF acc = <<>> THEN Failure
                       ELSE UnfoldFrom(ls, i + 1,
                              [acc EXCEPT ![Len(acc)] = @ \o From(l, 2)])
             ELSE UnfoldFrom(ls, i + 1, Append(acc, l))
Unfold(ls) == UnfoldFrom(ls, 1, <<>>)
UnfoldText(t) == Unfold(PhysicalLines(t))

(* is `out` a correct folding of the line t for this width (0: no folding) *)
Width(w) == IF w = 1 THEN 2 ELSE w
CrlfOnly(t) == \A i \in 1..Len(t) :
                  /\ t[i] = CR => i < Len(t) /\ t[i + 1] = LF
                  /\ t[i] = LF => i > 1 /\ t[i - 1] = CR
FoldedRight(t, w, out) ==
    LET ls == PhysicalLines(out)
        u == Unfold(ls)
    IN  IF ~CrlfOnly(out) THEN "lines are not separated by CRLF"
        ELSE IF ~u.ok \/ u.v # <<t>> THEN "unfolding does not give back the line"
        ELSE IF w > 0 /\ \E i \in 1..Len(ls) : Len(ls[i]) > Width(w) THEN "a line is too long"
        ELSE IF w = 0 /\ Len(ls) > 1 THEN "folded without a width"
        ELSE IF \E i \in 2..Len(ls) : ls[i] = <<>> \/ ls[i][1] # SP
             THEN "a continuation does not start with a space"
        ELSE ""
=============================================================================
