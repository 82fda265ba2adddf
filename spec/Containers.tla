---------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Containers as typed lists (C10).  The state is a heap: a sequence of    *)
(* objects, each a content line                                            *)
(*    [t |-> "line", n |-> name, v |-> value, ps |-> parameter values]     *)
(* or a container                                                          *)
(*    [t |-> "comp", n |-> name, xs |-> <<heap references>>].              *)
(* Reference 0 stands for anything that is neither.  An operation yields   *)
(*    [ok, k (kinds of error), h (heap afterwards), r (result)].           *)
(* Indices, as in Python, start at 0 and may be negative; an optional      *)
(* index is <<>> or <<i>>.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Done(h, r) == [ok |-> TRUE, k |-> {}, h |-> h, r |-> r]
Fail(h, k) == [ok |-> FALSE, k |-> k, h |-> h, r |-> <<>>]

(* ------------------------------------------------------- plain lists *)

(* the position (1-based) an index denotes, 0 if none *)
Pos(n, i) == LET p == IF i < 0 THEN n + i + 1 ELSE i + 1
             IN  IF 1 <= p /\ p <= n THEN p ELSE 0

(* insertion never fails *)
InsertAt(xs, i, x) ==
    LET n == Len(xs)
        p == IF i < 0 THEN Max2(0, n + i) ELSE Min2(n, i)
    IN  SubSeq(xs, 1, p) \o <<x>> \o SubSeq(xs, p + 1, n)

RemoveAt(xs, p) == SubSeq(xs, 1, p - 1) \o SubSeq(xs, p + 1, Len(xs))

Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]

(* first and past-the-end index of a slice (0-based), as Python defines it *)
Bound(n, o, default, low, high) ==
    IF o = <<>> THEN default
    ELSE IF o[1] < 0 THEN Max2(o[1] + n, low) ELSE Min2(o[1], high)
StepOf(s) == IF s = <<>> THEN 1 ELSE s[1]
First(n, a, s) == IF s > 0 THEN Bound(n, a, 0, 0, n) ELSE Bound(n, a, n - 1, -1, n - 1)
Stop(n, b, s)  == IF s > 0 THEN Bound(n, b, n, 0, n) ELSE Bound(n, b, -1, -1, n - 1)
Count(f, e, s) == IF s > 0 THEN IF f < e THEN (e - f - 1) \div s + 1 ELSE 0
                  ELSE IF e < f THEN (f - e - 1) \div (-s) + 1 ELSE 0
(* positions (1-based) selected by a slice *)
Selected(n, a, b, s) ==
    LET f == First(n, a, s)
    IN  [i \in 1..Count(f, Stop(n, b, s), s) |-> f + (i - 1) * s + 1]
Taken(xs, sel) == [i \in 1..Len(sel) |-> xs[sel[i]]]
In(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Without(_, _, _)
Without(xs, sel, i) ==
    IF i > Len(xs) THEN <<>>
    ELSE (IF In(i, sel) THEN <<>> ELSE <<xs[i]>>) \o Without(xs, sel, i + 1)
(* assignment to a slice: a plain one may change the length *)
Assigned(xs, a, b, s, ys) ==
    LET n == Len(xs)
        f == First(n, a, 1)
        e == Max2(f, Stop(n, b, 1))
        sel == Selected(n, a, b, s)
    IN  IF s = 1 THEN [ok |-> TRUE, v |-> SubSeq(xs, 1, f) \o ys \o SubSeq(xs, e + 1, n)]
        ELSE IF Len(ys) # Len(sel) THEN [ok |-> FALSE, v |-> <<>>]
        ELSE [ok |-> TRUE,
              v |-> [i \in 1..n |-> IF In(i, sel)
                                    THEN ys[CHOOSE k \in 1..Len(sel) : sel[k] = i]
                                    ELSE xs[i]]]

(* ------------------------------------------------------------- heaps *)

RECURSIVE Same(_, _, _)
Same(h, a, b) ==
    IF a = b THEN TRUE
    ELSE IF a = 0 \/ b = 0 THEN FALSE
    ELSE IF h[a].t # h[b].t \/ h[a].n # h[b].n THEN FALSE
    ELSE IF h[a].t = "line" THEN h[a].v = h[b].v /\ h[a].ps = h[b].ps
    ELSE /\ Len(h[a].xs) = Len(h[b].xs)
         /\ \A i \in 1..Len(h[a].xs) : Same(h, h[a].xs[i], h[b].xs[i])

(* first position >= from of an item equal to x, or 0 *)
RECURSIVE Where(_, _, _, _, _)
Where(h, xs, x, from, to) ==
    IF from > to THEN 0
    ELSE IF Same(h, xs[from], x) THEN from ELSE Where(h, xs, x, from + 1, to)

Named(h, xs, nm) == SelectSeq(xs, LAMBDA x : h[x].n = nm)

Put(h, c, xs) == [h EXCEPT ![c].xs = xs]
New(h, nm, xs) == Append(h, [t |-> "comp", n |-> nm, xs |-> xs])

RECURSIVE Deep(_, _), DeepItems(_, _, _, _)
(* copy of object r, placed after the end of the heap; items follow it *)
Deep(h, r) ==
    IF h[r].t = "line" THEN Append(h, h[r])
    ELSE LET self == Len(h) + 1
             d == DeepItems(New(h, h[r].n, <<>>), h[r].xs, 1, <<>>)
         IN  [d.h EXCEPT ![self].xs = d.xs]
DeepItems(h, xs, i, acc) ==
    IF i > Len(xs) THEN [h |-> h, xs |-> acc]
    ELSE DeepItems(Deep(h, xs[i]), xs, i + 1, Append(acc, Len(h) + 1))

Bads(ys) == \E i \in 1..Len(ys) : ys[i] = 0
AnyError == {"any"}

(***************************************************************************)
(* One operation.  ev: op, c (container), i, j, s (optional indices, step), *)
(* x (reference), ys (references), nm (name), boom (the iterable of items  *)
(* raises after yielding them)                                             *)
(***************************************************************************)
Op(h, ev) ==
    LET c == ev.c
        xs == IF c = 0 THEN <<>> ELSE h[c].xs
        n == Len(xs)
        p == IF ev.i = <<>> THEN 0 ELSE Pos(n, ev.i[1])
        ys == ev.ys
        st == StepOf(ev.s)
    IN CASE ev.op = "new" ->
              IF Bads(ys) \/ ev.boom \/ ev.nm = "" THEN Fail(h, AnyError)
              ELSE Done(New(h, ev.nm, ys), <<Len(h) + 1>>)
         [] ev.op = "append" ->
              IF ev.x = 0 THEN Fail(h, AnyError) ELSE Done(Put(h, c, Append(xs, ev.x)), <<>>)
         [] ev.op = "insert" ->
              IF ev.x = 0 THEN Fail(h, AnyError)
              ELSE Done(Put(h, c, InsertAt(xs, ev.i[1], ev.x)), <<>>)
         [] ev.op \in {"extend", "iadd"} ->
              IF Bads(ys) \/ ev.boom THEN Fail(h, AnyError)
              ELSE Done(Put(h, c, xs \o ys), <<>>)
         [] ev.op = "set" ->
              IF ev.x = 0 THEN Fail(h, AnyError)
              ELSE IF p = 0 THEN Fail(h, {"IndexError"})
              ELSE Done(Put(h, c, [xs EXCEPT ![p] = ev.x]), <<>>)
         [] ev.op = "setslice" ->
              IF Bads(ys) \/ ev.boom THEN Fail(h, AnyError)
              ELSE IF st = 0 THEN Fail(h, {"ValueError"})
              ELSE LET a == Assigned(xs, ev.i, ev.j, st, ys)
                   IN  IF a.ok THEN Done(Put(h, c, a.v), <<>>) ELSE Fail(h, {"ValueError"})
         [] ev.op = "del" ->
              IF p = 0 THEN Fail(h, {"IndexError"}) ELSE Done(Put(h, c, RemoveAt(xs, p)), <<>>)
         [] ev.op = "delslice" ->
              IF st = 0 THEN Fail(h, {"ValueError"})
              ELSE Done(Put(h, c, Without(xs, Selected(n, ev.i, ev.j, st), 1)), <<>>)
         [] ev.op = "delname" ->
              Done(Put(h, c, SelectSeq(xs, LAMBDA x : h[x].n # ev.nm)), <<>>)
         [] ev.op = "pop" ->          \* without index: the last one
              LET q == IF ev.i = <<>> THEN n ELSE p
              IN  IF q = 0 THEN Fail(h, {"IndexError"})
                  ELSE Done(Put(h, c, RemoveAt(xs, q)), <<xs[q]>>)
         [] ev.op = "remove" ->
              LET q == Where(h, xs, ev.x, 1, n)
              IN  IF q = 0 THEN Fail(h, {"ValueError"}) ELSE Done(Put(h, c, RemoveAt(xs, q)), <<>>)
         [] ev.op = "reverse" -> Done(Put(h, c, Rev(xs)), <<>>)
         [] ev.op = "clear" -> Done(Put(h, c, <<>>), <<>>)
         (* queries *)
         [] ev.op = "get" -> IF p = 0 THEN Fail(h, {"IndexError"}) ELSE Done(h, <<xs[p]>>)
         [] ev.op = "slice" ->
              IF st = 0 THEN Fail(h, {"ValueError"})
              ELSE Done(New(h, h[c].n, Taken(xs, Selected(n, ev.i, ev.j, st))), <<Len(h) + 1>>)
         [] ev.op = "named" -> Done(h, Named(h, xs, ev.nm))
         [] ev.op = "iter" -> Done(h, xs)
         [] ev.op = "reversed" -> Done(h, Rev(xs))
         [] ev.op = "len" -> Done(h, <<n>>)
         [] ev.op = "in" -> Done(h, <<IF Where(h, xs, ev.x, 1, n) = 0 THEN 0 ELSE 1>>)
         [] ev.op = "count" ->
              Done(h, <<Cardinality({i \in 1..n : Same(h, xs[i], ev.x)})>>)
         [] ev.op = "index" ->
              LET q == Where(h, xs, ev.x, First(n, ev.i, 1) + 1, Stop(n, ev.j, 1))
              IN  IF q = 0 THEN Fail(h, {"ValueError"}) ELSE Done(h, <<q - 1>>)
         [] ev.op = "eq" -> Done(h, <<IF Same(h, c, ev.x) THEN 1 ELSE 0>>)
         (* copies *)
         [] ev.op = "clone" -> Done(New(h, h[c].n, xs), <<Len(h) + 1>>)
         [] ev.op = "deepclone" -> Done(Deep(h, c), <<Len(h) + 1>>)
         [] ev.op = "cloneitems" ->
              IF Bads(ys) \/ ev.boom THEN Fail(h, AnyError)
              ELSE Done(New(h, h[c].n, ys), <<Len(h) + 1>>)
         (* editing a line in place: visible wherever that line is held *)
         [] ev.op = "setvalue" -> Done([h EXCEPT ![ev.x].v = ev.i[1]], <<>>)
         [] ev.op = "addparam" -> Done([h EXCEPT ![ev.x].ps = Append(@, ev.i[1])], <<>>)

(* every held item is a line or container *)
Typed(h) == \A c \in 1..Len(h) : h[c].t = "comp" =>
                \A i \in 1..Len(h[c].xs) : h[c].xs[i] \in 1..Len(h)
=============================================================================
