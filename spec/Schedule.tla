------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Ordering, interval predicates and timeline queries over entries.        *)
(* An entry is [ts |-> span, sum |-> text]; an absent time is <<>>.        *)
(* All comparisons are made on instants, floating times being local.       *)
(***************************************************************************)
EXTENDS Timespan, FiniteSets

NoTime == DT(693596, 0, "")           \* 1900-01-01, floating

I(o, local) == InstantIn(The(o), local)
OrNone(o) == IF Some(o) THEN o ELSE <<NoTime>>

(***************************************************************************)
(* Order.                                                                  *)
(***************************************************************************)
SpanKey(ts, local) ==
    LET b == I(OrNone(ts.b), local)
        e == I(OrNone(EffEnd(ts)), local)
    IN  IF ts.k = "todo" THEN <<e, b>> ELSE <<b, e>>

RECURSIVE TextLt(_, _)
TextLt(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF a[1] # b[1] THEN a[1] < b[1]
    ELSE TextLt(Tail(a), Tail(b))

SpanKeyLt(p, q) == TLt(p[1], q[1]) \/ (p[1] = q[1] /\ TLt(p[2], q[2]))
KeyLt(k, l) == \/ SpanKeyLt(k.key, l.key)
               \/ k.key = l.key /\ TextLt(k.sum, l.sum)
Key(x, local) == [key |-> SpanKey(x.ts, local), sum |-> x.sum]

Lt(x, y, local) == KeyLt(Key(x, local), Key(y, local))

(* the results of  <  >  <=  >=  *)
Cmp(x, y, local) ==
    LET l == Lt(x, y, local)
        g == Lt(y, x, local)
    IN  <<l, g, ~g, ~l>>

(***************************************************************************)
(* Interval predicates: "yes", "no" or "error" if a needed time is absent. *)
(***************************************************************************)
Answer(needed, p) ==
    IF \E o \in needed : o = <<>> THEN "error" ELSE IF p THEN "yes" ELSE "no"

HasAll(needed) == \A o \in needed : o # <<>>

In(t, lo, hi) == TLe(lo, t) /\ TLt(t, hi)     \* half-open

B(ts) == ts.b
E(ts) == EffEnd(ts)

StartsWithin(x, y, l) ==
    LET n == {B(x), B(y), E(y)}
    IN  Answer(n, HasAll(n) /\ In(I(B(x), l), I(B(y), l), I(E(y), l)))
EndsWithin(x, y, l) ==
    LET n == {E(x), B(y), E(y)}
    IN  Answer(n, HasAll(n) /\ In(I(E(x), l), I(B(y), l), I(E(y), l)))
Intersects(x, y, l) ==
    LET n == {B(x), E(x), B(y), E(y)}
    IN  Answer(n, /\ HasAll(n)
                  /\ \/ In(I(B(x), l), I(B(y), l), I(E(y), l))
                     \/ In(I(E(x), l), I(B(y), l), I(E(y), l))
                     \/ In(I(B(y), l), I(B(x), l), I(E(x), l))
                     \/ In(I(E(y), l), I(B(x), l), I(E(x), l)))
Includes(x, y, l) ==
    LET n == {B(x), E(x), B(y), E(y)}
    IN  Answer(n, /\ HasAll(n)
                  /\ TLe(I(B(x), l), I(B(y), l))
                  /\ TLt(I(E(y), l), I(E(x), l)))
IncludedIn(x, y, l) == Includes(y, x, l)
IncludesInstant(x, t, l) ==
    LET n == {B(x), E(x)}
    IN  Answer(n, HasAll(n) /\ In(InstantIn(t, l), I(B(x), l), I(E(x), l)))

Predicate(name, x, y, l) ==
    CASE name = "starts_within"  -> StartsWithin(x, y, l)
      [] name = "ends_within"    -> EndsWithin(x, y, l)
      [] name = "intersects"     -> Intersects(x, y, l)
      [] name = "includes"       -> Includes(x, y, l)
      [] name = "is_included_in" -> IncludedIn(x, y, l)

PredicateNames == {"starts_within", "ends_within", "intersects", "includes",
                   "is_included_in"}

(***************************************************************************)
(* Timeline queries.  Each is a predicate on spans; an answer is a sequence*)
(* of event numbers that is ordered and complete.                          *)
(***************************************************************************)
Day(t) == Span("span", <<Floor(t)>>, <<DTPlus(Floor(t), OneDay)>>, <<>>, FALSE)

Selected(q, ts, l) ==
    CASE q.op = "all"         -> TRUE
      [] q.op = "included"    -> IncludedIn(ts, q.span, l) = "yes"
      [] q.op = "overlapping" -> Intersects(ts, q.span, l) = "yes"
      [] q.op = "start_after" -> TLt(InstantIn(q.t, l), I(ts.b, l))
      [] q.op = "at"          -> IncludesInstant(ts, q.t, l) = "yes"

OrderedBySpan(seq, l) ==        \* seq of spans
    \A i \in 1..(Len(seq) - 1) :
        ~SpanKeyLt(SpanKey(seq[i + 1], l), SpanKey(seq[i], l))

Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
=============================================================================
