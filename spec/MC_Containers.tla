--------------------------- MODULE MC_Containers ----------------------------
(* All operations on all containers with at most MaxLen items taken from a *)
(* small heap: two equal lines, one of the same name, another one, and a   *)
(* container holding one of them.                                          *)
EXTENDS Containers, TLC, Json

CONSTANTS MaxLen, Indices, Steps, Part

SparseIndices == {-4, -2, -1, 0, 1, 3}
AllIndices == -5..4
FewSteps == {-1, 0, 2}
ManySteps == {-2, -1, 0, 1, 2, 3}

L(n, v) == [t |-> "line", n |-> n, v |-> v, ps |-> <<1>>]
Heap0 == <<[t |-> "comp", n |-> "M", xs |-> <<>>],
           L("A", 1), L("A", 1), L("B", 2),
           [t |-> "comp", n |-> "B", xs |-> <<2>>]>>
Items == 2..5
Opt == {<<>>} \cup {<<i>> : i \in Indices}
StepOpt == {<<>>} \cup {<<i>> : i \in Steps}
Lists == {<<>>, <<2>>, <<4, 2>>, <<0>>, <<3, 0>>, <<5, 3, 2>>}

Ev(op) == [op |-> op, c |-> 1, i |-> <<>>, j |-> <<>>, s |-> <<>>, x |-> 0,
           ys |-> <<>>, nm |-> "", boom |-> FALSE]

PlainOps ==
    {[Ev(o) EXCEPT !.x = x] : o \in {"append", "remove", "in", "count"}, x \in Items \cup {0}}
    \cup {[Ev(o) EXCEPT !.i = <<i>>, !.x = x] :
            o \in {"insert", "set"}, i \in Indices, x \in Items \cup {0}}
    \cup {[Ev("index") EXCEPT !.i = i, !.j = j, !.x = x] :
            i \in Opt, j \in Opt, x \in Items \cup {0}}
    \cup {[Ev(o) EXCEPT !.ys = l, !.boom = b] :
            o \in {"extend", "iadd", "cloneitems"}, l \in Lists, b \in BOOLEAN}
    \cup {[Ev(o) EXCEPT !.i = <<i>>] : o \in {"del", "pop", "get"}, i \in Indices}
    \cup {Ev(o) : o \in {"pop", "reverse", "clear", "iter", "reversed", "len", "clone",
                         "deepclone"}}
    \cup {[Ev(o) EXCEPT !.nm = m] : o \in {"delname", "named"}, m \in {"A", "B", "M", ""}}
SliceOps ==
    {[Ev(o) EXCEPT !.i = i, !.j = j, !.s = s] :
        o \in {"delslice", "slice"}, i \in Opt, j \in Opt, s \in StepOpt}
    \cup {[Ev("setslice") EXCEPT !.i = i, !.j = j, !.s = s, !.ys = l, !.boom = b] :
            i \in Opt, j \in Opt, s \in StepOpt, l \in Lists, b \in {FALSE}}
Ops == IF Part = "plain" THEN PlainOps ELSE SliceOps

VARIABLE h

Init == h = Heap0

Next == \E ev \in Ops :
          LET w == Op(h, ev)
          IN  /\ PrintT("VPJ" \o ToJson([xs |-> h[1].xs, ev |-> ev, w |-> [w EXCEPT !.k = <<>>],
                                         k |-> w.k]))
              /\ Len(w.h[1].xs) <= MaxLen
              /\ Len(w.h) = Len(h)
              /\ h' = w.h

Spec == Init /\ [][Next]_h

AllTyped == Typed(h)
(* list laws *)
Laws == LET xs == h[1].xs IN
    /\ Rev(Rev(xs)) = xs
    /\ \A i \in Opt, j \in Opt : LET sel == Selected(Len(xs), i, j, 1) IN
        /\ Assigned(xs, i, j, 1, Taken(xs, sel)).v = xs
        /\ Assigned(xs, i, j, 1, <<>>).v = Without(xs, sel, 1)
    /\ Taken(xs, Selected(Len(xs), <<>>, <<>>, -1)) = Rev(xs)
(* copies share nothing with the original *)
DeepDisjoint == LET d == Deep(h, 1) IN
    \A i \in 1..Len(d[Len(h) + 1].xs) : d[Len(h) + 1].xs[i] > Len(h)
=============================================================================
