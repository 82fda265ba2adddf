----------------------------- MODULE Components -----------------------------
(***************************************************************************)
(* Calendars, events, todos and alarms as values, and their two-way        *)
(* relation to trees of property lines (C13, C14, C18, C20).               *)
(*                                                                         *)
(* A component is                                                          *)
(*   [cls |-> "calendar" | "event" | "todo" | "audio" | "custom" |         *)
(*            "display" | "email" | "none",                                *)
(*    a |-> [attribute |-> <<value, ...>>, ...],   (<<>>: unset / empty)   *)
(*    x |-> <<item, ...>>,            unknown properties and components    *)
(*    p |-> <<[key, ps, ms], ...>>]   extra parameters and line merging    *)
(* A value is a record with one field naming its type:                     *)
(*   text, uri (code points), int, bool, bytes, dt [w, f, z], dur, geo     *)
(*   (millionths of a degree), person [e, x], span (see Timespan), comp.   *)
(* A tree item is [t |-> "line", n, ps, v] or [t |-> "comp", n, items];    *)
(* ps is <<[n, vals], ...>>.  Names and parameter values are strings.      *)
(* Of a stored parameter list, ps[i] belongs to the i-th value and ms[i]   *)
(* tells whether the next value continues the same line.                   *)
(***************************************************************************)
EXTENDS Timespan, TextValue, TLC

T == INSTANCE Temporal

Range(s) == {s[i] : i \in 1..Len(s)}
Is(v, ty) == ty \in DOMAIN v

(***************************************************************************)
(* Schema.                                                                 *)
(***************************************************************************)
At(n, prop, key, ty, multi) == [n |-> n, prop |-> prop, key |-> key, ty |-> ty, multi |-> multi]
A1(n, prop, key, ty) == At(n, prop, key, ty, FALSE)
AN(n, prop, key, ty) == At(n, prop, key, ty, TRUE)

EntrySchema == <<
    A1("timespan", "DTSTART", "", <<"span">>),
    A1("summary", "SUMMARY", "SUMMARY", <<"text">>),
    A1("uid", "UID", "UID", <<"text">>),
    A1("description", "DESCRIPTION", "DESCRIPTION", <<"text">>),
    A1("location", "LOCATION", "LOCATION", <<"text">>),
    A1("url", "URL", "URL", <<"text", "uri">>),
    A1("status", "STATUS", "STATUS", <<"text">>),
    A1("created", "CREATED", "CREATED", <<"dt">>),
    A1("last_modified", "LAST-MODIFIED", "LAST_MODIFIED", <<"dt">>),
    A1("dtstamp", "DTSTAMP", "DTSTAMP", <<"dt">>),
    AN("alarms", "VALARM", "", <<"comp">>),
    AN("attach", "ATTACH", "ATTACH", <<"uri", "bytes">>) >>
EventSchema == EntrySchema \o <<
    A1("classification", "CLASSIFICATION", "CLASSIFICATION", <<"text">>),
    A1("transparent", "TRANSPARENT", "TRANSPARENT", <<"bool">>),
    A1("organizer", "ORGANIZER", "ORGANIZER", <<"person">>),
    A1("geo", "GEO", "GEO", <<"geo">>),
    AN("attendees", "ATTENDEE", "ATTENDEES", <<"person">>),
    AN("categories", "CATEGORIES", "CATEGORIES", <<"text">>) >>
TodoSchema == EntrySchema \o <<
    A1("percent", "PERCENT", "PERCENT", <<"int">>),
    A1("priority", "PRIORITY", "PRIORITY", <<"int">>),
    A1("completed", "COMPLETED", "COMPLETED", <<"dt">>) >>
CalendarSchema == <<
    A1("version", "VERSION", "VERSION", <<"text">>),
    A1("prodid", "PRODID", "PRODID", <<"text">>),
    A1("scale", "SCALE", "SCALE", <<"text">>),
    A1("method", "METHOD", "METHOD", <<"text">>),
    AN("events", "VEVENT", "", <<"comp">>),
    AN("todos", "VTODO", "", <<"comp">>) >>
AlarmSchema == <<
    A1("trigger", "TRIGGER", "TRIGGER", <<"dur", "dt">>),
    A1("repeat", "REPEAT", "REPEAT", <<"int">>),
    A1("duration", "DURATION", "DURATION", <<"dur">>) >>
AudioSchema == AlarmSchema \o << A1("attach", "ATTACH", "ATTACH", <<"uri", "bytes">>) >>
CustomSchema == AlarmSchema \o << A1("action", "ACTION", "_ACTION", <<"text">>) >>
DisplaySchema == AlarmSchema \o << A1("description", "DESCRIPTION", "DESCRIPTION", <<"text">>) >>
EmailSchema == AlarmSchema \o <<
    A1("summary", "SUMMARY", "SUMMARY", <<"text">>),
    A1("description", "DESCRIPTION", "DESCRIPTION", <<"text">>),
    AN("attendees", "ATTENDEE", "ATTENDEES", <<"person">>),
    AN("attach", "ATTACH", "ATTACH", <<"uri", "bytes">>) >>

Schema(cls) ==
    CASE cls = "event" -> EventSchema
      [] cls = "todo" -> TodoSchema
      [] cls = "calendar" -> CalendarSchema
      [] cls = "audio" -> AudioSchema
      [] cls = "custom" -> CustomSchema
      [] cls = "display" -> DisplaySchema
      [] cls = "email" -> EmailSchema
      [] cls = "none" -> AlarmSchema

CompName(cls) == CASE cls = "event" -> "VEVENT" [] cls = "todo" -> "VTODO"
                   [] cls = "calendar" -> "VCALENDAR" [] OTHER -> "VALARM"
FixedAlarms == {"audio", "display", "email", "none"}
Required(cls) == IF cls = "calendar" THEN {"version", "prodid"} ELSE {}
EndProp(cls) == IF cls = "event" THEN "DTEND" ELSE "DUE"
EndKey(cls) == IF cls = "event" THEN "END" ELSE "DUE"
SpanProps == {"DTSTART", "DTEND", "DUE", "DURATION"}

KnownProps(cls) ==
    {Schema(cls)[i].prop : i \in 1..Len(Schema(cls))}
    \cup (IF cls \in {"event", "todo"} THEN SpanProps ELSE {})
    \cup (IF cls \in FixedAlarms THEN {"ACTION"} ELSE {})
    \cup (IF cls = "calendar" THEN {"VTIMEZONE"} ELSE {})

ActionText(cls) == CASE cls = "audio" -> <<65, 85, 68, 73, 79>>
                     [] cls = "display" -> <<68, 73, 83, 80, 76, 65, 89>>
                     [] cls = "email" -> <<69, 77, 65, 73, 76>>
                     [] cls = "none" -> <<78, 79, 78, 69>>
ActionClass(v) == IF \E c \in FixedAlarms : ActionText(c) = v
                  THEN CHOOSE c \in FixedAlarms : ActionText(c) = v ELSE "custom"

TypeName(ty) == CASE ty = "text" -> "TEXT" [] ty = "uri" -> "URI" [] ty = "bytes" -> "BINARY"
                  [] ty = "dt" -> "DATE-TIME" [] ty = "dur" -> "DURATION"
                  [] ty = "int" -> "INTEGER" [] ty = "bool" -> "BOOLEAN"
                  [] ty = "geo" -> "X-GEO" [] ty = "person" -> "PERSON"

(***************************************************************************)
(* Parameters.                                                             *)
(***************************************************************************)
HasP(ps, n) == \E i \in 1..Len(ps) : ps[i].n = n
GetP(ps, n) == IF HasP(ps, n) THEN (CHOOSE q \in Range(ps) : q.n = n).vals ELSE <<>>
DropP(ps, n) == SelectSeq(ps, LAMBDA q : q.n # n)
PutP(ps, n, vals) ==
    IF HasP(ps, n) THEN [i \in 1..Len(ps) |-> IF ps[i].n = n THEN [n |-> n, vals |-> vals] ELSE ps[i]]
    ELSE Append(ps, [n |-> n, vals |-> vals])
RECURSIVE PutAll(_, _, _)
PutAll(ps, qs, i) == IF i > Len(qs) THEN ps ELSE PutAll(PutP(ps, qs[i].n, qs[i].vals), qs, i + 1)

Const(n, v) == [i \in 1..n |-> v]
Stored(c, key) == SelectSeq(c.p, LAMBDA q : q.key = key)
(* parameters and merge flags for n values *)
ParamsOf(c, key, n) ==
    LET s == Stored(c, key)
    IN  IF s = <<>> \/ (s[1].ps = <<>>) THEN [ok |-> TRUE, ps |-> Const(n, <<>>), ms |-> Const(n, FALSE)]
        ELSE [ok |-> Len(s[1].ps) = n, ps |-> s[1].ps, ms |-> s[1].ms]
Params1(c, key) == LET s == Stored(c, key) IN IF s = <<>> THEN <<>> ELSE s[1].ps[1]

(***************************************************************************)
(* Writing single values: text and parameters to add.                      *)
(***************************************************************************)
B64(n) == CASE n < 26 -> 65 + n [] n < 52 -> 71 + n [] n < 62 -> n - 4 [] n = 62 -> 43 [] OTHER -> 47
RECURSIVE Base64From(_, _)
Base64From(b, i) ==
    LET n == Len(b) - i + 1
        x(k) == IF k <= Len(b) THEN b[k] ELSE 0
        q == << B64(x(i) \div 4), B64((x(i) % 4) * 16 + x(i + 1) \div 16),
                B64((x(i + 1) % 16) * 4 + x(i + 2) \div 64), B64(x(i + 2) % 64) >>
    IN  IF n <= 0 THEN <<>>
        ELSE (IF n = 1 THEN <<q[1], q[2], 61, 61>> ELSE IF n = 2 THEN <<q[1], q[2], q[3], 61>> ELSE q)
             \o Base64From(b, i + 3)

WInt(n) == IF n < 0 THEN <<45>> \o T!Digits(-n, 1) ELSE T!Digits(n, 1)
WMicro(n) == (IF n < 0 THEN <<45>> ELSE <<>>)
             \o LET a == IF n < 0 THEN -n ELSE n
                IN  T!Digits(a \div 1000000, 1) \o <<46>> \o T!Digits(a % 1000000, 6)
WBool(b) == IF b THEN <<84, 82, 85, 69>> ELSE <<70, 65, 76, 83, 69>>
WDt(v) == T!WDate(v.w[1]) \o <<84>> \o T!WClock(v.w[2]) \o (IF v.z = "UTC" THEN <<90>> ELSE <<>>)
DtParams(v) == IF v.z \in {"", "UTC"} THEN <<>> ELSE <<[n |-> "TZID", vals |-> <<v.z>>]>>

WText(v) ==
    CASE Is(v, "text") -> Escape(v.text)
      [] Is(v, "uri") -> v.uri
      [] Is(v, "int") -> WInt(v.int)
      [] Is(v, "bool") -> WBool(v.bool)
      [] Is(v, "bytes") -> Base64From(v.bytes, 1)
      [] Is(v, "dt") -> WDt(v.dt)
      [] Is(v, "dur") -> T!WDuration(v.dur)
      [] Is(v, "geo") -> WMicro(v.geo[1]) \o <<SEMI>> \o WMicro(v.geo[2])
      [] Is(v, "person") -> v.person.e

TypeIndex(d, v) == CHOOSE i \in 1..Len(d.ty) : Is(v, d.ty[i])
WParams(d, v, stored) ==
    LET s == IF TypeIndex(d, v) > 1
             THEN PutP(stored, "VALUE", <<TypeName(d.ty[TypeIndex(d, v)])>>) ELSE stored
    IN  CASE Is(v, "dt") -> PutAll(s, DtParams(v.dt), 1)
          [] Is(v, "person") -> PutAll(s, v.person.x, 1)
          [] OTHER -> s

PLine(n, ps, v) == [t |-> "line", n |-> n, ps |-> ps, v |-> v]

(***************************************************************************)
(* Export.  k is "ok", or "free" where the stored parameters do not fit    *)
(* the values any more.                                                    *)
(***************************************************************************)
Lines(k, items) == [k |-> k, items |-> items]

RECURSIVE GroupEnd(_, _)
GroupEnd(ms, i) == IF i >= Len(ms) \/ ~ms[i] THEN i ELSE GroupEnd(ms, i + 1)
RECURSIVE MultiFrom(_, _, _, _)
MultiFrom(d, vs, pm, i) ==
    IF i > Len(vs) THEN Lines("ok", <<>>)
    ELSE LET j == GroupEnd(pm.ms, i)
             ps == WParams(d, vs[i], pm.ps[i])
             rest == MultiFrom(d, vs, pm, j + 1)
         IN  IF rest.k # "ok" \/ (j = Len(vs) /\ pm.ms[j])
                \/ \E m \in i..j : Range(WParams(d, vs[m], pm.ps[m])) # Range(ps)
             THEN Lines("free", <<>>)
             ELSE Lines("ok", <<PLine(d.prop, ps, JoinList([m \in 1..(j - i + 1) |-> WText(vs[i + m - 1])]))>>
                              \o rest.items)

ExportSpan(c) ==
    LET s == c.a["timespan"][1].span
        vt == IF s.day THEN <<[n |-> "VALUE", vals |-> <<"DATE">>]>> ELSE <<>>
        w(dt) == IF s.day THEN T!WDate(dt.w[1]) ELSE WDt(dt)
        ps(key, dt) == PutAll(PutAll(Params1(c, key), DtParams(dt), 1), vt, 1)
    IN  Lines("ok",
            (IF Some(s.b) THEN <<PLine("DTSTART", ps("BEGIN", The(s.b)), w(The(s.b)))>> ELSE <<>>)
            \o (IF Some(s.e) THEN <<PLine(EndProp(c.cls), ps(EndKey(c.cls), The(s.e)), w(The(s.e)))>> ELSE <<>>)
            \o (IF Some(s.d) THEN <<PLine("DURATION", Params1(c, "DURATION"), T!WDuration(The(s.d)))>> ELSE <<>>))

RECURSIVE Export(_)
RECURSIVE ExportFrom(_, _)
ExportAttr(c, d) ==
    LET vs == c.a[d.n]
    IN  IF d.n = "timespan" THEN ExportSpan(c)
        ELSE IF d.ty = <<"comp">>
        THEN LET es == TLCEval([i \in 1..Len(vs) |-> Export(vs[i].comp)])
             IN  IF \E i \in 1..Len(es) : es[i].k # "ok" THEN Lines("free", <<>>)
                 ELSE Lines("ok", [i \in 1..Len(es) |->
                        [t |-> "comp", n |-> CompName(vs[i].comp.cls), items |-> es[i].items]])
        ELSE IF d.multi
        THEN LET pm == ParamsOf(c, d.key, Len(vs))
             IN  IF pm.ok THEN MultiFrom(d, vs, pm, 1) ELSE Lines("free", <<>>)
        ELSE Lines("ok", IF vs = <<>> THEN <<>>
                         ELSE <<PLine(d.prop, WParams(d, vs[1], Params1(c, d.key)), WText(vs[1]))>>)
ExportFrom(c, i) ==
    IF i > Len(Schema(c.cls)) THEN Lines("ok", <<>>)
    ELSE LET e == ExportAttr(c, Schema(c.cls)[i])
             rest == ExportFrom(c, i + 1)
         IN  IF e.k = "ok" /\ rest.k = "ok" THEN Lines("ok", e.items \o rest.items)
             ELSE Lines("free", <<>>)
Export(c) ==
    LET act == IF c.cls \in FixedAlarms
               THEN <<PLine("ACTION", Params1(c, "ACTION"), ActionText(c.cls))>> ELSE <<>>
        e == ExportFrom(c, 1)
    IN  IF e.k = "ok" THEN Lines("ok", act \o e.items \o c.x) ELSE e

(***************************************************************************)
(* Does a written tree say the same as an expected one?  The order of      *)
(* known properties among each other is free, and the VALUE parameter may  *)
(* name the default type.                                                  *)
(***************************************************************************)
DefaultType(cls, prop) ==
    IF prop \in SpanProps /\ cls \in {"event", "todo"}
    THEN IF prop = "DURATION" THEN "DURATION" ELSE "DATE-TIME"
    ELSE LET ds == SelectSeq(Schema(cls), LAMBDA d : d.prop = prop)
         IN  IF ds = <<>> \/ ds[1].ty \in {<<"comp">>, <<"person">>} THEN "" ELSE TypeName(ds[1].ty[1])
Sig(cls, l) ==
    LET dt == DefaultType(cls, l.n)
    IN  <<l.v, {q \in Range(l.ps) : dt = "" \/ q # [n |-> "VALUE", vals |-> <<dt>>]}>>

Plain0(i) == IF i.t = "line" THEN <<"line", i.n, {i.ps[k] : k \in 1..Len(i.ps)}, i.v>> ELSE <<>>
RECURSIVE SameItem(_, _)       \* unknown items: everything in order
SameItem(a, b) ==
    /\ a.t = b.t /\ a.n = b.n
    /\ IF a.t = "line" THEN Plain0(a) = Plain0(b)
       ELSE /\ Len(a.items) = Len(b.items)
            /\ \A i \in 1..Len(a.items) : SameItem(a.items[i], b.items[i])

Action(items) == LET s == SelectSeq(items, LAMBDA i : i.n = "ACTION" /\ i.t = "line")
                 IN  IF s = <<>> THEN "custom" ELSE ActionClass(s[1].v)
ClassOf(n, items) == CASE n = "VEVENT" -> "event" [] n = "VTODO" -> "todo"
                       [] n = "VALARM" -> Action(items) [] n = "VCALENDAR" -> "calendar"
RECURSIVE SameTree(_, _, _)
SameTree(cls, xs, ys) ==
    LET known == KnownProps(cls)
        names == {xs[i].n : i \in 1..Len(xs)} \cup {ys[i].n : i \in 1..Len(ys)}
        sub(s, n) == SelectSeq(s, LAMBDA i : i.n = n)
        rest(s) == SelectSeq(s, LAMBDA i : ~(i.n \in known))
    IN  /\ Len(xs) = Len(ys)
        /\ \A n \in names \cap known :
              LET a == sub(xs, n)
                  b == sub(ys, n)
              IN  /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) :
                        /\ a[i].t = b[i].t
                        /\ IF a[i].t = "line" THEN Sig(cls, a[i]) = Sig(cls, b[i])
                           ELSE SameTree(ClassOf(n, a[i].items), a[i].items, b[i].items)
        /\ LET a == rest(xs)
               b == rest(ys)
           IN  Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameItem(a[i], b[i])

(***************************************************************************)
(* Reading single values: verdict "ok", "bad" or "free", and the value.    *)
(***************************************************************************)
Yes(v) == [k |-> "ok", v |-> v]
Never == [k |-> "bad", v |-> <<>>]
Maybe == [k |-> "free", v |-> <<>>]
Both(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "free" \/ b = "free" THEN "free" ELSE "ok"
Strict(r) == IF r.k = "maybe" THEN [k |-> "free", v |-> <<>>] ELSE r

(* neither an ASCII digit nor blank nor possibly some other white space *)
Foreign(c) == (33 <= c /\ c <= 126 /\ ~(48 <= c /\ c <= 57)) \/ (1632 <= c /\ c <= 1641)
RInt(t) == LET u == IF Len(t) > 0 /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
           IN  IF u # <<>> /\ T!AllDigits(u) /\ Len(u) <= 9
               THEN Yes(IF t[1] = 45 THEN -T!Num(u, 1, Len(u)) ELSE T!Num(u, 1, Len(u)))
               ELSE IF \E i \in 1..Len(t) : Foreign(t[i]) /\ ~(t[i] \in {43, 45}) THEN Never ELSE Maybe
RBool(t) == IF Upper(t) = WBool(TRUE) THEN Yes(TRUE) ELSE IF Upper(t) = WBool(FALSE) THEN Yes(FALSE)
            ELSE Maybe
RECURSIVE Pad6(_)
Pad6(t) == IF Len(t) >= 6 THEN t ELSE Pad6(Append(t, 48))
RMicro(t) ==
    LET u == IF Len(t) > 0 /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
        j == Find(u, {46}, 1)
        whole == SubSeq(u, 1, j - 1)
        frac == Pad6(SubSeq(u, j + 1, Len(u)))
        n == T!Num(whole, 1, Len(whole)) * 1000000 + T!Num(frac, 1, 6)
    IN  IF whole # <<>> /\ T!AllDigits(whole) /\ T!AllDigits(frac) /\ Len(whole) <= 3 /\ Len(frac) = 6
        THEN Yes(IF t[1] = 45 THEN -n ELSE n)
        ELSE IF t = <<>> \/ \E i \in 1..Len(t) : Foreign(t[i]) /\ ~(t[i] \in {43, 45, 46, 69, 101})
        THEN Never ELSE Maybe
RGeo(t) == LET j == Find(t, {SEMI}, 1)
               a == RMicro(Until(t, j))
               b == RMicro(From(t, j + 1))
           IN  IF j > Len(t) THEN Never
               ELSE IF a.k = "bad" \/ b.k = "bad" THEN Never
               ELSE IF a.k = "ok" /\ b.k = "ok" THEN Yes(<<a.v, b.v>>) ELSE Maybe

B64Inv(c) == CASE 65 <= c /\ c <= 90 -> c - 65 [] 97 <= c /\ c <= 122 -> c - 71
               [] 48 <= c /\ c <= 57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
RECURSIVE Unbase(_, _)
Unbase(t, i) ==          \* whole quadruples, padded at the very end only
    IF i > Len(t) THEN Yes(<<>>)
    ELSE IF i + 3 > Len(t) THEN Never
    ELSE LET q == [k \in 1..4 |-> B64Inv(t[i + k - 1])]
             last == i + 3 = Len(t)
             n == IF t[i + 3] # 61 THEN 3 ELSE IF t[i + 2] # 61 THEN 2 ELSE 1
             rest == Unbase(t, i + 4)
             b1 == q[1] * 4 + q[2] \div 16
             b2 == (q[2] % 16) * 16 + q[3] \div 4
             b3 == (q[3] % 4) * 64 + q[4]
         IN  IF q[1] < 0 \/ q[2] < 0 \/ (n >= 2 /\ q[3] < 0) \/ (n < 3 /\ ~last) THEN Never
             ELSE IF n = 3 /\ q[4] < 0 THEN Never
             ELSE IF rest.k # "ok" THEN rest
             ELSE Yes((CASE n = 3 -> <<b1, b2, b3>> [] n = 2 -> <<b1, b2>> [] n = 1 -> <<b1>>) \o rest.v)

RDt(t, ps) ==       \* a date-time line with its parameters
    LET tz == GetP(ps, "TZID")
        r == Strict(T!RDateTime(t, T!DTLENS, <<>>, {}))
        z == IF r.k = "ok" /\ r.v.z # <<>> THEN "UTC" ELSE IF tz = <<>> THEN "" ELSE tz[1]
    IN  IF r.k # "ok" THEN r
        ELSE IF tz # <<>> /\ (Len(tz) > 1 \/ r.v.z # <<>>) THEN Never
        ELSE IF ~(z \in {""} \cup DOMAIN Zones) THEN Maybe
        ELSE Yes([w |-> r.v.w, f |-> 0, z |-> z])
RDate(t, ps) ==
    LET r == Strict(T!Read("date", t, <<>>, {}))
    IN  IF HasP(ps, "TZID") THEN Maybe
        ELSE IF r.k # "ok" THEN r ELSE Yes([w |-> <<r.v, 0>>, f |-> 0, z |-> ""])

RVal(ty, t, ps) ==
    LET as(r, f(_)) == IF r.k = "ok" THEN Yes(f(r.v)) ELSE r
        un == Unescape(t)
    IN  CASE ty = "text" -> IF un.ok THEN Yes([text |-> un.v]) ELSE Never
          [] ty = "uri" -> IF HasAny(t, {91, 93}) THEN Maybe ELSE Yes([uri |-> t])
          [] ty = "int" -> as(RInt(t), LAMBDA v : [int |-> v])
          [] ty = "bool" -> as(RBool(t), LAMBDA v : [bool |-> v])
          [] ty = "geo" -> as(RGeo(t), LAMBDA v : [geo |-> v])
          [] ty = "bytes" -> as(Unbase(t, 1), LAMBDA v : [bytes |-> v])
          [] ty = "dt" -> as(RDt(t, ps), LAMBDA v : [dt |-> v])
          [] ty = "dur" -> as(Strict(T!RDuration(t)), LAMBDA v : [dur |-> v])
          [] ty = "person" -> IF HasAny(t, {91, 93}) THEN Maybe ELSE Yes([person |-> [e |-> t, x |-> ps]])

(***************************************************************************)
(* What assignment makes of a value of the right type (C18).               *)
(***************************************************************************)
ToUTC(dt, local) == [w |-> InstantIn(dt, local), f |-> 0, z |-> "UTC"]
STATUS == { <<84, 69, 78, 84, 65, 84, 73, 86, 69>>, <<67, 79, 78, 70, 73, 82, 77, 69, 68>>,
            <<67, 65, 78, 67, 69, 76, 76, 69, 68>> }
Store(cls, n, v, local) ==
    CASE n = "status" -> IF Upper(v.text) \in STATUS THEN Yes([text |-> Upper(v.text)]) ELSE Never
      [] n \in {"created", "last_modified", "dtstamp"} ->
            \* a time at the ends of the calendar need not be one in UTC
            IF v.dt.z # "UTC" /\ (v.dt.w[1] <= 2 \/ v.dt.w[1] >= T!MAXDAY - 1) THEN Maybe
            ELSE Yes([dt |-> ToUTC(v.dt, local)])
      [] n = "percent" -> IF 0 <= v.int /\ v.int <= 100 THEN Yes(v) ELSE Never
      [] n = "priority" -> IF 0 <= v.int /\ v.int <= 9 THEN Yes(v) ELSE Never
      [] OTHER -> Yes(v)

(***************************************************************************)
(* Import.                                                                 *)
(***************************************************************************)
Pm(key, ps, ms) == [key |-> key, ps |-> ps, ms |-> ms]
Got(k, vs, ps, ms) == [k |-> k, vs |-> vs, ps |-> ps, ms |-> ms]
NoValue == Got("ok", <<>>, <<>>, <<>>)

SplitValues(ty, t) ==
    CASE ty = "text" -> SplitList(t)
      [] ty \in {"uri", "person"} -> Result(<<t>>)
      [] OTHER -> Result(Split(t, {COMMA}))

ReadLine(cls, d, l, local) ==         \* all values of one line
    LET vt == GetP(l.ps, "VALUE")
        ps == DropP(l.ps, "VALUE")
        tys == {i \in 1..Len(d.ty) : vt = <<>> \/ TypeName(d.ty[i]) = vt[1]}
        ty == d.ty[IF vt = <<>> THEN 1 ELSE CHOOSE i \in tys : TRUE]
        parts == IF d.multi THEN SplitValues(ty, l.v) ELSE Result(<<l.v>>)
        rs == TLCEval([i \in 1..Len(parts.v) |-> RVal(ty, parts.v[i], ps)])
        ss == TLCEval([i \in 1..Len(rs) |-> IF rs[i].k = "ok" THEN Store(cls, d.n, rs[i].v, local) ELSE rs[i]])
        keep == IF ty = "person" THEN <<>> ELSE IF ty = "dt" THEN DropP(ps, "TZID") ELSE ps
        n == Len(ss)
    IN  IF (HasP(l.ps, "VALUE") /\ Len(vt) # 1) \/ tys = {} \/ ~parts.ok THEN Got("bad", <<>>, <<>>, <<>>)
        ELSE IF \E i \in 1..n : ss[i].k = "bad" THEN Got("bad", <<>>, <<>>, <<>>)
        ELSE IF \E i \in 1..n : ss[i].k = "free" THEN Got("free", <<>>, <<>>, <<>>)
        ELSE Got("ok", [i \in 1..n |-> ss[i].v], Const(n, keep), [i \in 1..n |-> i < n])

RECURSIVE JoinGot(_, _)
JoinGot(gs, i) ==
    IF i > Len(gs) THEN NoValue
    ELSE LET r == JoinGot(gs, i + 1)
         IN  Got(Both(gs[i].k, r.k), gs[i].vs \o r.vs, gs[i].ps \o r.ps, gs[i].ms \o r.ms)

LinesOf(items, n) == SelectSeq(items, LAMBDA i : i.n = n)

(* the span of an entry: value and its stored parameters *)
ImportSpan(cls, items) ==
    LET ls(n) == LinesOf(items, n)
        one(n) == ls(n)[1]
        has(n) == ls(n) # <<>>
        wrongEnd == IF cls = "event" THEN "DUE" ELSE "DTEND"
        endp == EndProp(cls)
        vt(n) == IF HasP(one(n).ps, "VALUE") THEN GetP(one(n).ps, "VALUE") ELSE <<"DATE-TIME">>
        rd(n) == LET ps == DropP(one(n).ps, "VALUE")
                 IN  IF vt(n) = <<"DATE">> THEN RDate(one(n).v, ps)
                     ELSE IF vt(n) = <<"DATE-TIME">> THEN RDt(one(n).v, ps) ELSE Never
        opt(n) == IF has(n) THEN rd(n) ELSE Yes(<<>>)
        b == opt("DTSTART")
        e == opt(endp)
        d == IF has("DURATION") THEN Strict(T!RDuration(one("DURATION").v)) ELSE Yes(<<>>)
        day == (has("DTSTART") /\ vt("DTSTART") = <<"DATE">>) \/ (has(endp) /\ vt(endp) = <<"DATE">>)
        mixed == has("DTSTART") /\ has(endp) /\ vt("DTSTART") # vt(endp)
        ts == Span(cls, IF has("DTSTART") THEN <<b.v>> ELSE <<>>, IF has(endp) THEN <<e.v>> ELSE <<>>,
                   IF has("DURATION") THEN <<d.v>> ELSE <<>>, day)
        par(n) == DropP(DropP(one(n).ps, "VALUE"), "TZID")
        p == (IF has("DTSTART") THEN <<Pm("BEGIN", <<par("DTSTART")>>, <<FALSE>>)>> ELSE <<>>)
             \o (IF has(endp) THEN <<Pm(EndKey(cls), <<par(endp)>>, <<FALSE>>)>> ELSE <<>>)
             \o (IF has("DURATION") THEN <<Pm("DURATION", <<one("DURATION").ps>>, <<FALSE>>)>> ELSE <<>>)
        k == Both(b.k, Both(e.k, d.k))
    IN  IF has(wrongEnd) \/ (\E n \in SpanProps : Len(ls(n)) > 1) \/ mixed \/ k = "bad"
        THEN Got("bad", <<>>, <<>>, <<>>)
        ELSE IF k = "free" THEN Got("free", <<>>, <<>>, <<>>)
        ELSE IF ~Valid(ts) THEN Got("bad", <<>>, <<>>, <<>>)
        ELSE Got("ok", <<[span |-> ts]>>, p, <<>>)

Made(k, c) == [k |-> k, c |-> c]

GENUID == <<103, 101, 110>>
GENSTAMP == [dt |-> [w |-> <<730120, 43200>>, f |-> 0, z |-> "UTC"]]

SubComps == {"VEVENT", "VTODO", "VALARM", "VTIMEZONE"}
RECURSIVE Import(_, _, _)
ImportAttr(cls, d, items, local) ==
    LET ls == LinesOf(items, d.prop)
        gs == TLCEval([i \in 1..Len(ls) |-> ReadLine(cls, d, ls[i], local)])
        cs == TLCEval([i \in 1..Len(ls) |-> Import(ClassOf(d.prop, ls[i].items), ls[i].items, local)])
    IN  IF d.n = "timespan" THEN ImportSpan(cls, items)
        ELSE IF d.ty = <<"comp">>
        THEN IF \E i \in 1..Len(ls) : ls[i].t # "comp" THEN Got("free", <<>>, <<>>, <<>>)
             ELSE IF \E i \in 1..Len(ls) : cs[i].k = "bad" THEN Got("bad", <<>>, <<>>, <<>>)
             ELSE IF \E i \in 1..Len(ls) : cs[i].k = "free" THEN Got("free", <<>>, <<>>, <<>>)
             ELSE Got("ok", [i \in 1..Len(cs) |-> [comp |-> cs[i].c]], <<>>, <<>>)
        ELSE IF \E i \in 1..Len(ls) : ls[i].t # "line" THEN Got("free", <<>>, <<>>, <<>>)
        ELSE IF ~d.multi /\ Len(ls) > 1 THEN Got("bad", <<>>, <<>>, <<>>)
        ELSE IF ls = <<>> /\ d.n \in Required(cls) THEN Got("bad", <<>>, <<>>, <<>>)
        ELSE IF ls = <<>> /\ d.n = "uid" /\ cls \in {"event", "todo"}
             THEN Got("ok", <<[text |-> GENUID]>>, <<>>, <<>>)
        ELSE IF ls = <<>> /\ d.n = "dtstamp" THEN Got("ok", <<GENSTAMP>>, <<>>, <<>>)
        ELSE JoinGot(gs, 1)

Import(cls, items, local) ==
    LET sch == Schema(cls)
        gs == TLCEval([i \in 1..Len(sch) |-> ImportAttr(cls, sch[i], items, local)])
        acts == LinesOf(items, "ACTION")
        isAlarm == CompName(cls) = "VALARM"
        names == {sch[i].n : i \in 1..Len(sch)}
        idx(n) == CHOOSE i \in 1..Len(sch) : sch[i].n = n
        RECURSIVE pFrom(_)
        pFrom(i) == IF i > Len(sch) THEN <<>>
                    ELSE (IF sch[i].n = "timespan" THEN gs[i].ps
                          ELSE IF gs[i].ps = <<>> THEN <<>>
                          ELSE <<Pm(sch[i].key, gs[i].ps, gs[i].ms)>>) \o pFrom(i + 1)
        actP == IF cls \in FixedAlarms /\ acts # <<>>
                THEN <<Pm("ACTION", <<acts[1].ps>>, <<FALSE>>)>> ELSE <<>>
        known == TLCEval(KnownProps(cls) \cup (IF isAlarm THEN {"ACTION"} ELSE {}))
        wrongKind == \E i \in 1..Len(items) : /\ items[i].n \in known
                                              /\ (items[i].t = "comp") # (items[i].n \in SubComps)
    IN  IF wrongKind THEN Made("free", <<>>)
        ELSE IF isAlarm /\ Len(acts) # 1 THEN Made("bad", <<>>)
        ELSE IF \E i \in 1..Len(gs) : gs[i].k = "bad" THEN Made("bad", <<>>)
        ELSE IF \E i \in 1..Len(gs) : gs[i].k = "free" THEN Made("free", <<>>)
        ELSE Made("ok", [cls |-> cls, a |-> TLCEval([n \in names |-> gs[idx(n)].vs]),
                         x |-> SelectSeq(items, LAMBDA i : ~(i.n \in known)),
                         p |-> pFrom(1) \o actP])

(***************************************************************************)
(* Stripping.                                                              *)
(***************************************************************************)
Strip(c, props, params, merging) ==
    [c EXCEPT !.x = IF props THEN <<>> ELSE @,
              !.p = IF params THEN <<>>
                    ELSE IF merging THEN [i \in 1..Len(@) |-> [@[i] EXCEPT !.ms = Const(Len(@), FALSE)]]
                    ELSE @]

(***************************************************************************)
(* Equality of components as users see it: attributes, unknown properties. *)
(***************************************************************************)
PlainSpan(s) == IF s.b = <<>> /\ s.e = <<>> THEN [s EXCEPT !.day = FALSE] ELSE s
RECURSIVE SameComp(_, _)
SameVal(v, w) ==
    IF Is(v, "comp") /\ Is(w, "comp") THEN SameComp(v.comp, w.comp)
    ELSE IF Is(v, "span") /\ Is(w, "span") THEN PlainSpan(v.span) = PlainSpan(w.span)
    ELSE IF Is(v, "person") /\ Is(w, "person")
         THEN v.person.e = w.person.e /\ Range(v.person.x) = Range(w.person.x)
    ELSE DOMAIN v = DOMAIN w /\ v = w
SameVals(vs, ws) == Len(vs) = Len(ws) /\ \A i \in 1..Len(vs) : SameVal(vs[i], ws[i])
DiffAttrs(c, e) == {n \in DOMAIN c.a : ~SameVals(c.a[n], e.a[n])}
SameComp(c, e) ==
    /\ c.cls = e.cls
    /\ DiffAttrs(c, e) = {}
    /\ Len(c.x) = Len(e.x)
    /\ \A i \in 1..Len(c.x) : SameItem(c.x[i], e.x[i])
Difference(c, e) == IF c.cls # e.cls THEN <<"class", e.cls>>
                    ELSE IF DiffAttrs(c, e) # {}
                    THEN LET n == CHOOSE m \in DiffAttrs(c, e) : TRUE IN <<n, c.a[n], e.a[n]>>
                    ELSE <<"unknown properties", c.x>>
=============================================================================
