------------------------------ MODULE Nesting -------------------------------
(***************************************************************************)
(* BEGIN/END nesting (C09).  Items are content lines                       *)
(*   [t |-> "line", l |-> line]                                            *)
(* or components                                                           *)
(*   [t |-> "comp", name |-> text, items |-> <<item, ...>>]                *)
(* Parsing is a stack machine over content lines.                          *)
(***************************************************************************)
EXTENDS Text

TBEGIN == <<66, 69, 71, 73, 78>>
TEND == <<69, 78, 68>>


Frame(name, items) == [name |-> name, items |-> items]
Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
AddItem(st, x) == [st EXCEPT ![Len(st)].items = Append(@, x)]

(* one step: the stack of open components after reading a line, or failure *)
NestStep(st, l) ==
    IF l.name = TBEGIN THEN Result(Append(st, Frame(l.value, <<>>)))
    ELSE IF l.name = TEND /\ Len(st) > 1
         THEN IF Upper(l.value) = Upper(Top(st).name) /\ l.value # <<>>
              THEN Result(AddItem(Pop(st), [t |-> "comp", name |-> Upper(Top(st).name),
                                            items |-> Top(st).items]))
              ELSE Failure
    ELSE Result(AddItem(st, [t |-> "line", l |-> l]))

RECURSIVE NestFrom(_, _, _)
NestFrom(ls, i, st) ==
    IF i > Len(ls) THEN IF Len(st) = 1 THEN Result(st[1].items) ELSE Failure
    ELSE LET r == NestStep(st, ls[i])
         IN  IF r.ok THEN NestFrom(ls, i + 1, r.v) ELSE Failure
Nest(ls) == NestFrom(ls, 1, <<Frame(<<>>, <<>>)>>)

(* the lines of an item *)
RECURSIVE Flatten(_)
RECURSIVE FlattenAll(_, _)
Flatten(x) ==
    IF x.t = "line" THEN <<x.l>>
    ELSE <<[name |-> TBEGIN, params |-> <<>>, value |-> x.name]>>
         \o FlattenAll(x.items, 1)
         \o <<[name |-> TEND, params |-> <<>>, value |-> x.name]>>
FlattenAll(xs, i) == IF i > Len(xs) THEN <<>> ELSE Flatten(xs[i]) \o FlattenAll(xs, i + 1)
=============================================================================
