------------------------------- MODULE Assign -------------------------------
(***************************************************************************)
(* What becomes of a raw value given for an attribute of a component,      *)
(* whether at construction or later (C18).                                 *)
(* A raw value is a record with one field: none, text, int, bool, float,   *)
(* bytes, uri, dt, dur, person [who, e, x], span, comp, obj, and           *)
(*   dtlike  [form |-> "date" | "tuple" | "dict", w |-> <<wall>> or <<>>]  *)
(*   durlike [form |-> "tuple" | "dict", d |-> <<dur>> or <<>>]            *)
(*   geo     [form |-> "geo" | "tuple" | "dict", v]                        *)
(*   list    [form |-> "list" | "tuple" | "iter", xs |-> <<raw, ...>>]     *)
(* An outcome is k = "ok" with the stored values v, the kind of error      *)
(* ("ValueError", "TypeError", "error": any), or "free" (nothing is said,  *)
(* but assignment and construction have to agree).                         *)
(***************************************************************************)
EXTENDS Components

Err(k) == [k |-> k, v |-> <<>>]
Stores(vs) == [k |-> "ok", v |-> vs]
Unsaid == Err("free")

IsTuple(r) == \/ (Is(r, "dtlike") /\ r.dtlike.form = "tuple")
              \/ (Is(r, "durlike") /\ r.durlike.form = "tuple")
              \/ (Is(r, "geo") /\ r.geo.form \in {"geo", "tuple"})
              \/ (Is(r, "list") /\ r.list.form = "tuple") \/ Is(r, "uri")
IsDict(r) == \/ (Is(r, "dtlike") /\ r.dtlike.form = "dict")
             \/ (Is(r, "durlike") /\ r.durlike.form = "dict")
             \/ (Is(r, "geo") /\ r.geo.form = "dict")

(* conversions *)
ToDt(r) ==
    CASE Is(r, "none") -> Stores(<<>>)
      [] Is(r, "dt") -> Stores(<<r>>)
      [] Is(r, "dtlike") -> IF r.dtlike.w = <<>> THEN Err("error")
                            ELSE Stores(<<[dt |-> [w |-> r.dtlike.w[1], f |-> 0, z |-> ""]]>>)
      [] IsTuple(r) \/ IsDict(r) -> Err("error")
      [] OTHER -> Err("ValueError")
ToStamp(r, local) == LET d == ToDt(r)
                     IN  IF d.k # "ok" \/ d.v = <<>> THEN d
                         ELSE Stores(<<[dt |-> ToUTC(d.v[1].dt, local)]>>)
ToDur(r) ==
    CASE Is(r, "none") -> Stores(<<>>)
      [] Is(r, "dur") -> Stores(<<r>>)
      [] Is(r, "durlike") -> IF r.durlike.d = <<>> THEN Err("error") ELSE Stores(<<[dur |-> r.durlike.d[1]]>>)
      [] IsTuple(r) \/ IsDict(r) -> Unsaid
      [] OTHER -> Err("ValueError")
ToGeo(r) ==
    CASE Is(r, "none") -> Stores(<<>>)
      [] Is(r, "geo") -> Stores(<<[geo |-> r.geo.v]>>)
      [] IsTuple(r) \/ IsDict(r) -> Unsaid
      [] OTHER -> Err("ValueError")
InRange(r, lo, hi) ==
    CASE Is(r, "none") -> Stores(<<>>)
      [] Is(r, "int") -> IF lo <= r.int /\ r.int <= hi THEN Stores(<<r>>) ELSE Err("ValueError")
      [] Is(r, "bool") \/ Is(r, "float") -> Unsaid
      [] OTHER -> Err("ValueError")
ToUpper(r, valid, checked) ==
    CASE Is(r, "none") -> Stores(<<>>)
      [] Is(r, "text") /\ (\E i \in 1..Len(r.text) : r.text[i] > 127) -> Unsaid
      [] Is(r, "text") -> IF ~checked \/ Upper(r.text) \in valid
                          THEN Stores(<<[text |-> Upper(r.text)]>>) ELSE Err("ValueError")
      [] OTHER -> Err("TypeError")
OnlyType(r, ty, optional) ==
    CASE Is(r, "none") /\ optional -> Stores(<<>>)
      [] Is(r, ty) -> Stores(<<r>>)
      [] OTHER -> Err("TypeError")
(* raw elements of lists are stored as they are *)
Element(r) == IF Is(r, "person") THEN [person |-> [e |-> r.person.e, x |-> r.person.x]] ELSE r
ToList(r) ==
    CASE Is(r, "list") -> Stores([i \in 1..Len(r.list.xs) |-> Element(r.list.xs[i])])
      [] Is(r, "none") \/ Is(r, "int") \/ Is(r, "bool") \/ Is(r, "float") \/ Is(r, "dt") \/ Is(r, "dur")
         \/ Is(r, "obj") \/ Is(r, "person") \/ Is(r, "span")
         \/ (Is(r, "dtlike") /\ r.dtlike.form = "date") -> Err("TypeError")
      [] OTHER -> Unsaid
NotNone(o, raw) == IF Is(raw, "none") THEN Err("ValueError") ELSE o

Types(cls, n) == LET ds == SelectSeq(Schema(cls), LAMBDA d : d.n = n)
                 IN  IF ds = <<>> THEN <<>> ELSE ds[1].ty
IsMulti(cls, n) == LET ds == SelectSeq(Schema(cls), LAMBDA d : d.n = n) IN ds # <<>> /\ ds[1].multi
Plainly(cls, n, r) ==
    IF Is(r, "none") THEN (IF n = "uid" THEN Unsaid ELSE Stores(<<>>))
    ELSE IF \E i \in 1..Len(Types(cls, n)) : Is(r, Types(cls, n)[i])
         /\ Types(cls, n)[i] \in {"text", "uri", "int", "bool", "bytes"}
    THEN Stores(<<r>>) ELSE Unsaid

(* attributes added by subclasses, by the rule they were declared with *)
OwnRules == {"rank", "tag", "moment", "many", "free"}
Own(rule, r) ==
    CASE rule = "rank" -> InRange(r, 0, 3)
      [] rule = "tag" -> ToUpper(r, {}, FALSE)
      [] rule = "moment" -> ToDt(r)
      [] rule = "many" -> ToList(r)
      [] rule = "free" -> IF Is(r, "text") \/ Is(r, "int") THEN Stores(<<r>>)
                          ELSE IF Is(r, "none") THEN Stores(<<>>) ELSE Unsaid

Normalise(cls, n, r, local) ==
    CASE n = "timespan" -> IF Is(r, "span") /\ r.span.k = cls THEN Stores(<<r>>) ELSE Err("TypeError")
      [] n = "status" -> ToUpper(r, STATUS, TRUE)
      [] n \in {"created", "last_modified"} -> ToStamp(r, local)
      [] n = "dtstamp" -> NotNone(ToStamp(r, local), r)
      [] n = "completed" -> ToDt(r)
      [] n = "percent" -> InRange(r, 0, 100)
      [] n = "priority" -> InRange(r, 0, 9)
      [] n = "classification" -> OnlyType(r, "text", TRUE)
      [] n \in {"version", "prodid"} -> OnlyType(r, "text", FALSE)
      [] n = "organizer" ->
            IF Is(r, "none") THEN Stores(<<>>)
            ELSE IF Is(r, "person") /\ r.person.who = "organizer" THEN Stores(<<Element(r)>>)
            ELSE Err("TypeError")
      [] n = "geo" -> ToGeo(r)
      [] n = "trigger" -> IF Is(r, "dur") \/ Is(r, "dt") THEN Stores(<<r>>)
                          ELSE IF Is(r, "none") THEN Stores(<<>>) ELSE Err("TypeError")
      [] n = "duration" -> ToDur(r)
      [] IsMulti(cls, n) -> ToList(r)
      [] OTHER -> Plainly(cls, n, r)

Given(o, cls, n, r) == IF n \in DOMAIN o.own THEN Own(o.own[n], r) ELSE Normalise(cls, n, r, o.local)
(* one error kind covers another *)
Covers(spec, seen) == spec = seen \/ spec = "error"
=============================================================================
