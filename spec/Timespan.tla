------------------------------ MODULE Timespan ------------------------------
(***************************************************************************)
(* The time span of an event, a todo or a bare interval, and every edit    *)
(* operation on it.                                                        *)
(*   k   "event" | "todo" | "span"                                         *)
(*   b   begin,  <<>> or <<date-time>>                                     *)
(*   e   explicit end (due),  <<>> or <<date-time>>                        *)
(*   d   explicit duration,   <<>> or <<duration>>                         *)
(*   day all-day flag                                                      *)
(* Apply(ts, op) is the single definition of the transitions; it is        *)
(* explored exhaustively by MC_* modules and replayed by trace validation. *)
(***************************************************************************)
EXTENDS Time, TLC

Span(k, b, e, d, day) == [k |-> k, b |-> b, e |-> e, d |-> d, day |-> day]
Empty(k) == Span(k, <<>>, <<>>, <<>>, FALSE)

Some(o) == o # <<>>
The(o) == o[1]

Floating(dt) == dt.z = ""
DayPrecise(dt) == Midnight(dt) /\ Floating(dt)

(***************************************************************************)
(* What makes a span valid.                                                *)
(***************************************************************************)
NotBoth(ts) == ~(Some(ts.e) /\ Some(ts.d))
NeedsBegin(ts) ==
    /\ ts.k = "event" /\ Some(ts.e) => Some(ts.b)
    /\ Some(ts.d) => Some(ts.b)
DayAligned(ts) ==
    ts.day => /\ Some(ts.b) => DayPrecise(The(ts.b))
              /\ Some(ts.e) => DayPrecise(The(ts.e))
              /\ Some(ts.d) => The(ts.d)[2] = 0
ZonesAgree(ts) ==
    Some(ts.b) /\ Some(ts.e) => (Floating(The(ts.b)) <=> Floating(The(ts.e)))
EndAfterBegin(ts) ==
    (Some(ts.b) /\ Some(ts.e) /\ ZonesAgree(ts)) => DTLe(The(ts.b), The(ts.e))
DurationPositive(ts) == Some(ts.d) => TLe(Zero, The(ts.d))
AtLeastADay(ts) ==
    ts.day => /\ Some(ts.d) => TLe(OneDay, The(ts.d))
              /\ (Some(ts.b) /\ Some(ts.e) /\ ZonesAgree(ts)) =>
                    TLe(OneDay, DTMinus(The(ts.e), The(ts.b)))
(* the last day is 9999-12-31 *)
InCalendar(dt) == dt.w[1] >= 1 /\ dt.w[1] <= 3652059
Representable(ts) == /\ Some(ts.b) => InCalendar(The(ts.b))
                     /\ Some(ts.e) => InCalendar(The(ts.e))
                     /\ (Some(ts.b) /\ Some(ts.d)) => InCalendar(DTPlus(The(ts.b), The(ts.d)))

Valid(ts) ==
    /\ NotBoth(ts)
    /\ NeedsBegin(ts)
    /\ ZonesAgree(ts)
    /\ DayAligned(ts)
    /\ EndAfterBegin(ts)
    /\ DurationPositive(ts)
    /\ AtLeastADay(ts)
    /\ Representable(ts)

(***************************************************************************)
(* Derived values.                                                         *)
(***************************************************************************)
EffDur(ts) ==
    IF Some(ts.d) THEN ts.d
    ELSE IF Some(ts.e) /\ Some(ts.b) THEN <<DTMinus(The(ts.e), The(ts.b))>>
    ELSE IF ts.k = "event" THEN (IF ts.day THEN <<OneDay>> ELSE <<Zero>>)
    ELSE <<>>

EffEnd(ts) ==
    IF Some(ts.e) THEN ts.e
    ELSE IF Some(ts.b) /\ Some(EffDur(ts))
         THEN <<DTPlus(The(ts.b), The(EffDur(ts)))>>
    ELSE <<>>

Rep(ts) == IF Some(ts.d) THEN "duration" ELSE IF Some(ts.e) THEN "end" ELSE "none"

IsFloating(ts) == IF Some(ts.b) THEN Floating(The(ts.b))
                  ELSE IF Some(ts.e) THEN Floating(The(ts.e)) ELSE TRUE

(***************************************************************************)
(* Transitions.  Every edit is "build the new span; keep it iff valid".    *)
(***************************************************************************)
Ok(ts) == [ok |-> TRUE, ts |-> ts]
Reject(ts) == [ok |-> FALSE, ts |-> ts]
Try(old, new) == IF Valid(new) THEN Ok(new) ELSE Reject(old)

SetBegin(ts, v) == Try(ts, [ts EXCEPT !.b = v])
SetEnd(ts, v) == Try(ts, [ts EXCEPT !.e = v, !.d = <<>>])
SetDuration(ts, v) == Try(ts, [ts EXCEPT !.d = v, !.e = <<>>])

ConvertEnd(ts, target) ==
    LET cur == Rep(ts)
    IN  IF cur = target THEN Ok(ts)
        ELSE IF cur = "end" /\ target = "duration"
             THEN IF Some(ts.b)      \* else there is no duration to keep
                  THEN Try(ts, [ts EXCEPT !.e = <<>>, !.d = EffDur(ts)])
                  ELSE Reject(ts)
        ELSE IF cur = "duration" /\ target = "end"
             THEN Try(ts, [ts EXCEPT !.e = EffEnd(ts), !.d = <<>>])
        ELSE IF target = "none"
             THEN Try(ts, [ts EXCEPT !.e = <<>>, !.d = <<>>])
        ELSE Reject(ts)

MakeAllDay(ts) ==
    IF ts.day THEN Ok(ts)
    ELSE LET b == IF Some(ts.b) THEN <<Float(Floor(The(ts.b)))>> ELSE <<>>
             e0 == IF Some(EffEnd(ts)) THEN <<Float(Ceil(The(EffEnd(ts))))>> ELSE <<>>
             e == IF Some(e0) /\ Some(b) /\ The(e0).w = The(b).w
                  THEN <<DTPlus(The(e0), OneDay)>> ELSE e0
         IN  IF Some(ts.d)
             THEN Try(ts, Span(ts.k, b, <<>>, <<TSub(The(e).w, The(b).w)>>, TRUE))
             ELSE Try(ts, Span(ts.k, b, e, <<>>, TRUE))

UnsetAllDay(ts) == Try(ts, [ts EXCEPT !.day = FALSE])

MapOpt(o, f(_)) == IF Some(o) THEN <<f(The(o))>> ELSE <<>>

ReplaceZone(ts, z) ==
    IF ts.day THEN Reject(ts)
    ELSE LET r(dt) == [dt EXCEPT !.z = z]
         IN  Try(ts, [ts EXCEPT !.b = MapOpt(ts.b, r), !.e = MapOpt(ts.e, r)])

ConvertZone(ts, z, local) ==
    IF ts.day THEN Reject(ts)
    ELSE LET cv(dt) == IF dt.z = z THEN dt ELSE InZone(InstantIn(dt, local), z)
         IN  Try(ts, [ts EXCEPT !.b = MapOpt(ts.b, cv), !.e = MapOpt(ts.e, cv)])

(* construction from parts, over any previous value *)
Build(old, b, e, d) == Try(old, Span(old.k, b, e, d, FALSE))

(***************************************************************************)
(* An operation as recorded: [op, v] with v always a sequence.             *)
(***************************************************************************)
Apply(ts, ev, local) ==
    CASE ev.op = "begin"    -> SetBegin(ts, ev.v)
      [] ev.op = "end"      -> SetEnd(ts, ev.v)
      [] ev.op = "duration" -> SetDuration(ts, ev.v)
      [] ev.op = "convert"  -> ConvertEnd(ts, ev.v[1])
      [] ev.op = "allday"   -> MakeAllDay(ts)
      [] ev.op = "unset"    -> UnsetAllDay(ts)
      [] ev.op = "build"    -> Build(ts, ev.v[1], ev.v[2], ev.v[3])
      [] ev.op = "replacetz" -> ReplaceZone(ts, ev.v[1])
      [] ev.op = "converttz" -> ConvertZone(ts, ev.v[1], local)

(***************************************************************************)
(* What a user of the API can observe.  The fold of a date-time only       *)
(* matters in a repeated hour.                                             *)
(***************************************************************************)
PlainFold(dt) ==
    IF dt.f = 0 \/ (dt.z # "" /\ NSeg(dt.z) > 1 /\ Repeated(dt.z, dt.w))
    THEN dt ELSE [dt EXCEPT !.f = 0]
PF(o) == MapOpt(o, PlainFold)

Obs(ts) == [b |-> PF(ts.b), e |-> PF(EffEnd(ts)), d |-> EffDur(ts),
            day |-> ts.day, rep |-> Rep(ts)]

(***************************************************************************)
(* Normalization  n = [fl, tz |-> "ignore" | "replace" | "convert",        *)
(*                     z |-> zone or "" to strip timezones].               *)
(***************************************************************************)
NormAction(n, floating) == IF floating THEN n.fl ELSE n.tz

NormValue(dt, n, local) ==
    LET a == NormAction(n, Floating(dt))
    IN  CASE a = "ignore"  -> dt
          [] a = "replace" -> [dt EXCEPT !.z = n.z]
          [] a = "convert" -> IF dt.z = n.z THEN dt ELSE InZone(InstantIn(dt, local), n.z)

NormSpan(ts, n, local) ==
    LET a == NormAction(n, IsFloating(ts))
    IN  CASE a = "ignore"  -> Ok(ts)
          [] a = "replace" -> ReplaceZone(ts, n.z)
          [] a = "convert" -> ConvertZone(ts, n.z, local)

(* the entries of a calendar: all-day entries are left alone *)
NormEntry(ts, n, local) == IF ts.day THEN Ok(ts) ELSE NormSpan(ts, n, local)
=============================================================================
