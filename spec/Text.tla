-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of code points.  All scanning operators work with   *)
(* indices, so that they stay cheap on long texts.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

HTAB == 9   LF == 10   CR == 13   SP == 32   DQ == 34   APOS == 39
COMMA == 44 COLON == 58 SEMI == 59 EQ == 61  BSL == 92  CARET == 94
CN == 78    CR_ == 82   Cn == 110  Cr == 114

Up(c) == IF 97 <= c /\ c <= 122 THEN c - 32 ELSE c
Upper(t) == TLCEval([i \in 1..Len(t) |-> Up(t[i])])

From(t, i) == SubSeq(t, i, Len(t))
Until(t, i) == SubSeq(t, 1, i - 1)

(* first index >= i of a character in S, or Len + 1 *)
RECURSIVE Find(_, _, _)
Find(t, S, i) == IF i > Len(t) THEN Len(t) + 1
                 ELSE IF t[i] \in S THEN i ELSE Find(t, S, i + 1)

HasAny(t, S) == Find(t, S, 1) <= Len(t)

StartsAt(t, p, i) == /\ i + Len(p) - 1 <= Len(t)
                     /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]

RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) ==
    IF i > Len(parts) THEN <<>>
    ELSE IF i = Len(parts) THEN parts[i]
    ELSE parts[i] \o sep \o JoinFrom(parts, sep, i + 1)
Join(parts, sep) == JoinFrom(parts, sep, 1)

RECURSIVE ConcatFrom(_, _)
ConcatFrom(parts, i) == IF i > Len(parts) THEN <<>> ELSE parts[i] \o ConcatFrom(parts, i + 1)
Concat(parts) == ConcatFrom(parts, 1)

(* split at every character of S *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, S, i) ==
    LET j == Find(t, S, i)
    IN  IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>>
        ELSE <<SubSeq(t, i, j - 1)>> \o SplitFrom(t, S, j + 1)
Split(t, S) == SplitFrom(t, S, 1)

Result(v) == [ok |-> TRUE, v |-> v]
Failure == [ok |-> FALSE, v |-> <<>>]
=============================================================================
