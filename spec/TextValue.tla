------------------------------ MODULE TextValue -----------------------------
(* RFC 5545 TEXT values: escaping and comma-separated lists (C11).         *)
EXTENDS Text

EscChar(c) == CASE c = BSL   -> <<BSL, BSL>>
                [] c = SEMI  -> <<BSL, SEMI>>
                [] c = COMMA -> <<BSL, COMMA>>
                [] c = LF    -> <<BSL, Cn>>
                [] c = CR    -> <<BSL, Cr>>
                [] OTHER     -> <<c>>

Escape(t) == Concat([i \in 1..Len(t) |-> EscChar(t[i])])

EscTarget(c) == CASE c = BSL -> BSL [] c = SEMI -> SEMI [] c = COMMA -> COMMA
                  [] c \in {Cn, CN} -> LF [] c \in {Cr, CR_} -> CR

RECURSIVE UnescapeFrom(_, _, _)
UnescapeFrom(t, i, acc) ==
    IF i > Len(t) THEN Result(acc)
    ELSE IF t[i] = BSL
         THEN IF i < Len(t) /\ t[i + 1] \in {BSL, SEMI, COMMA, Cn, CN, Cr, CR_}
              THEN UnescapeFrom(t, i + 2, Append(acc, EscTarget(t[i + 1])))
              ELSE Failure
    ELSE IF t[i] \in {SEMI, COMMA, LF, CR} THEN Failure
    ELSE UnescapeFrom(t, i + 1, Append(acc, t[i]))
Unescape(t) == UnescapeFrom(t, 1, <<>>)

(* a list is split at every comma not taken by a preceding backslash *)
RECURSIVE SplitListFrom(_, _, _)
SplitListFrom(t, i, start) ==
    IF i > Len(t) THEN <<SubSeq(t, start, Len(t))>>
    ELSE IF t[i] = BSL THEN SplitListFrom(t, i + 2, start)
    ELSE IF t[i] = COMMA THEN <<SubSeq(t, start, i - 1)>> \o SplitListFrom(t, i + 1, i + 1)
    ELSE SplitListFrom(t, i + 1, start)

(* number of trailing backslashes odd *)
RECURSIVE Trailing(_, _)
Trailing(t, i) == IF i >= 1 /\ t[i] = BSL THEN 1 + Trailing(t, i - 1) ELSE 0
Dangling(t) == Trailing(t, Len(t)) % 2 = 1

SplitList(t) == IF Dangling(t) THEN Failure ELSE Result(SplitListFrom(t, 1, 1))
JoinList(vs) == Join(vs, <<COMMA>>)

Values(t) ==            \* the texts of a comma list, decoded
    LET s == SplitList(t)
        us == [i \in 1..Len(s.v) |-> Unescape(s.v[i])]
    IN  IF ~s.ok \/ \E i \in 1..Len(us) : ~us[i].ok THEN Failure
        ELSE Result([i \in 1..Len(us) |-> us[i].v])
=============================================================================
