------------------------------ MODULE Temporal ------------------------------
(***************************************************************************)
(* The textual form of temporal values (C12).  Values:                     *)
(*   date      day number (1 = 0001-01-01)                                 *)
(*   datetime  [w |-> <<day, second>>, z |-> zone]                         *)
(*   time      [s |-> second of the day, z |-> zone]                       *)
(*   duration  <<days, seconds>>, 0 <= seconds < 86400                     *)
(*   offset    seconds                                                     *)
(*   period    [b |-> datetime, e |-> <<datetime>> or <<>>,                *)
(*              d |-> <<duration>> or <<>>]                                *)
(* A zone is a text: empty for floating, "UTC", or a timezone id.          *)
(***************************************************************************)
EXTENDS Text

DAYSEC == 86400
PLUS == 43  MINUS == 45  SLASH == 47  D0 == 48  D9 == 57
CD == 68 CH == 72 CM == 77 CP == 80 CS == 83 CT == 84 CW == 87 CZ == 90
Ct == 116  Cz == 122
UTC == <<85, 84, 67>>
MAXDAY == 3652059           \* 9999-12-31
MAXDUR == 999999999         \* days

NormD(d, s) == <<d + (s \div DAYSEC), s % DAYSEC>>
NegD(a) == NormD(-a[1], -a[2])
LeT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

(* ----------------------------------------------------------- calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
BeforeYear(y) == LET p == y - 1 IN p * 365 + (p \div 4) - (p \div 100) + (p \div 400)
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + DaysIn(y, m - 1)
DayOf(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d
ValidDate(y, m, d) == y >= 1 /\ 1 <= m /\ m <= 12 /\ 1 <= d /\ d <= DaysIn(y, m)

YearOf(n) == LET g == (n * 1 + 366) \div 365      \* an upper bound, then down
                 RECURSIVE Down(_)
                 Down(y) == IF BeforeYear(y) < n THEN y ELSE Down(y - 1)
             IN  Down(g)
RECURSIVE MonthFrom(_, _, _)
MonthFrom(y, m, k) == IF k <= DaysIn(y, m) THEN <<m, k>> ELSE MonthFrom(y, m + 1, k - DaysIn(y, m))
Civil(n) == LET y == YearOf(n)
                md == MonthFrom(y, 1, n - BeforeYear(y))
            IN  <<y, md[1], md[2]>>

(* ------------------------------------------------------------- digits *)
IsDigit(c) == D0 <= c /\ c <= D9
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])
RECURSIVE Digits(_, _)        \* n as text, at least w digits
Digits(n, w) == IF n < 10 /\ w <= 1 THEN <<D0 + n>>
                ELSE Digits(n \div 10, w - 1) \o <<D0 + (n % 10)>>
RECURSIVE NumFrom(_, _, _, _)
NumFrom(t, i, j, acc) == IF i > j THEN acc ELSE NumFrom(t, i + 1, j, acc * 10 + (t[i] - D0))
Num(t, i, j) == NumFrom(t, i, j, 0)
RECURSIVE Stripped(_)         \* without leading zeros
Stripped(t) == IF Len(t) > 1 /\ t[1] = D0 THEN Stripped(Tail(t)) ELSE t

(* -------------------------------------------------------------- writing *)
WDate(n) == LET c == Civil(n) IN Digits(c[1], 4) \o Digits(c[2], 2) \o Digits(c[3], 2)
WClock(s) == Digits(s \div 3600, 2) \o Digits((s % 3600) \div 60, 2) \o Digits(s % 60, 2)
ZMark(z) == IF z = UTC THEN <<CZ>> ELSE <<>>
TzOf(z) == IF z = UTC \/ z = <<>> THEN <<>> ELSE <<z>>
WDateTime(v) == WDate(v.w[1]) \o <<CT>> \o WClock(v.w[2]) \o ZMark(v.z)
Part(n, c) == IF n = 0 THEN <<>> ELSE Digits(n, 1) \o <<c>>
WDuration(v) ==
    LET neg == v[1] < 0
        a == IF neg THEN NegD(v) ELSE v
        s == a[2]
        body == Part(a[1], CD)
                \o (IF s = 0 THEN <<>>
                    ELSE <<CT>> \o Part(s \div 3600, CH) \o Part((s % 3600) \div 60, CM)
                         \o Part(s % 60, CS))
    IN  (IF neg THEN <<MINUS>> ELSE <<>>) \o <<CP>>
        \o (IF body = <<>> THEN <<CT, D0, CS>> ELSE body)
WOffset(v) ==
    LET a == IF v < 0 THEN -v ELSE v
    IN  <<IF v < 0 THEN MINUS ELSE PLUS>> \o Digits(a \div 3600, 2)
        \o Digits((a % 3600) \div 60, 2) \o (IF a % 60 = 0 THEN <<>> ELSE Digits(a % 60, 2))
WPeriod(v) == WDateTime(v.b) \o <<SLASH>>
              \o (IF v.e # <<>> THEN WDateTime(v.e[1]) ELSE WDuration(v.d[1]))

Write(kind, v) ==        \* text and TZID parameter
    CASE kind = "date"     -> [t |-> WDate(v), tz |-> <<>>]
      [] kind = "datetime" -> [t |-> WDateTime(v), tz |-> TzOf(v.z)]
      [] kind = "time"     -> [t |-> WClock(v.s) \o ZMark(v.z), tz |-> TzOf(v.z)]
      [] kind = "duration" -> [t |-> WDuration(v), tz |-> <<>>]
      [] kind = "offset"   -> [t |-> WOffset(v), tz |-> <<>>]
      [] kind = "period"   -> [t |-> WPeriod(v), tz |-> TzOf(v.b.z)]

(***************************************************************************)
(* Reading.  The verdict on a text is "ok" (it must be read as v), "bad"   *)
(* (it must be rejected), "maybe" (it may be rejected or read as v) or     *)
(* "free" (it may be rejected or read as anything).                        *)
(***************************************************************************)
Ok(v) == [k |-> "ok", v |-> v]
No == [k |-> "bad", v |-> <<>>]
Free == [k |-> "free", v |-> <<>>]
Weaken(r) == IF r.k = "ok" THEN [r EXCEPT !.k = "maybe"] ELSE r

Loose == {MINUS, SLASH, CZ, Cz}
RECURSIVE Kept(_, _)
Kept(t, i) == IF i > Len(t) THEN <<>>
              ELSE (IF t[i] \in Loose THEN <<>> ELSE <<t[i]>>) \o Kept(t, i + 1)

(* the clock of a text of pairs of digits from i on: hour, minute, second *)
Clock(t, i) ==
    LET n == (Len(t) - i + 1) \div 2
        f(k) == IF k <= n THEN Num(t, i + 2 * (k - 1), i + 2 * k - 1) ELSE 0
    IN  IF f(1) <= 23 /\ f(2) <= 59 /\ f(3) <= 59 THEN Ok(f(1) * 3600 + f(2) * 60 + f(3)) ELSE No
DatePart(t, n) ==         \* 6 or 8 digits
    LET y == Num(t, 1, 4)
        m == Num(t, 5, 6)
        d == IF n = 6 THEN 1 ELSE Num(t, 7, 8)
    IN  IF ValidDate(y, m, d) THEN Ok(DayOf(y, m, d)) ELSE No

(* zone from the mark and the TZID values: verdict and zone *)
ZoneOf(t, tzids, known) ==
    LET z == Len(t) > 0 /\ t[Len(t)] \in {CZ, Cz}
    IN  CASE Len(tzids) > 1 -> No
          [] Len(tzids) = 1 /\ z -> No
          [] Len(tzids) = 1 -> IF tzids[1] \in known THEN Ok(tzids[1]) ELSE No
          [] z -> Ok(UTC)
          [] OTHER -> Ok(<<>>)

(* loosely written: other separators, lower case, a Z elsewhere *)
Sloppy(t) == \/ \E i \in 1..Len(t) : t[i] \in {MINUS, SLASH, Cz, Ct}
             \/ \E i \in 1..(Len(t) - 1) : t[i] = CZ

RDateTime(t0, lens, tzids, known) ==
    LET t == Kept(t0, 1)
        n == Len(t)
        z == ZoneOf(t0, tzids, known)
        day == DatePart(t, n)
        clock == IF n > 8 THEN Clock(t, 10) ELSE Ok(0)
        r == IF ~(n \in lens) THEN No
             ELSE IF ~(AllDigits(SubSeq(t, 1, IF n > 8 THEN 8 ELSE n))) THEN No
             ELSE IF n > 8 /\ ~(t[9] \in {CT, Ct} /\ AllDigits(From(t, 10))) THEN No
             ELSE IF day.k = "bad" \/ clock.k = "bad" \/ z.k = "bad" THEN No
             ELSE Ok([w |-> <<day.v, clock.v>>, z |-> z.v])
    IN  IF Sloppy(t0) THEN Weaken(r) ELSE r
DATELENS == {6, 8}
DTLENS == {6, 8, 11, 13, 15}

RTime(t0, tzids, known) ==
    LET t == Kept(t0, 1)
        z == ZoneOf(t0, tzids, known)
        c == Clock(t, 1)
        r == IF ~(Len(t) \in {2, 4, 6}) \/ ~AllDigits(t) THEN No
             ELSE IF c.k = "bad" \/ z.k = "bad" THEN No
             ELSE Ok([s |-> c.v, z |-> z.v])
    IN  IF Sloppy(t0) THEN Weaken(r) ELSE r

ROffset(t) ==
    LET signed == Len(t) > 0 /\ t[1] \in {PLUS, MINUS}
        u == IF signed THEN Tail(t) ELSE t
        h == Num(u, 1, 2)
        m == Num(u, 3, 4)
        s == IF Len(u) = 6 THEN Num(u, 5, 6) ELSE 0
        v == h * 3600 + m * 60 + s
        r == Ok(IF signed /\ t[1] = MINUS THEN -v ELSE v)
    IN  IF ~(Len(u) \in {4, 6}) \/ ~AllDigits(u) THEN No
        ELSE IF h > 23 \/ m > 59 \/ s > 59 THEN Free
        ELSE IF signed THEN r ELSE Weaken(r)

(* n units of c as a duration; n as text of digits *)
Amount(ds, c) ==
    LET t == Stripped(ds)
        n == Num(t, 1, Len(t))
    IN  CASE Len(t) > 9 -> IF c \in {CD, CW} THEN No ELSE Free
          [] c = CW -> IF n > MAXDUR \div 7 THEN No ELSE Ok(<<7 * n, 0>>)
          [] c = CD -> Ok(<<n, 0>>)
          [] c = CH -> Ok(<<n \div 24, (n % 24) * 3600>>)
          [] c = CM -> Ok(<<n \div 1440, (n % 1440) * 60>>)
          [] c = CS -> Ok(NormD(0, n))

(***************************************************************************)
(* Durations: a sign, P, then amounts with units, at most one T before     *)
(* each amount.  Units given in RFC order with a T exactly where the time  *)
(* part starts must be accepted; other orders may be.                      *)
(***************************************************************************)
Rank(c) == CASE c = CW -> 1 [] c = CD -> 2 [] c = CH -> 3 [] c = CM -> 4 [] c = CS -> 5
RECURSIVE RDurFrom(_, _, _, _, _, _)
(* at index i; units seen; total; whether a T was seen; whether well formed *)
RDurFrom(t, i, seen, total, tt, good) ==
    IF i > Len(t)
    THEN [k |-> IF good /\ seen # {} THEN "ok" ELSE "maybe", v |-> total]
    ELSE LET hasT == t[i] = CT
             a == IF hasT THEN i + 1 ELSE i
             j == Find(t, {c \in {t[k] : k \in a..Len(t)} : ~IsDigit(c)}, a)
         IN  IF hasT /\ a > Len(t)
             THEN [k |-> "maybe", v |-> total]        \* a dangling T
             ELSE IF j = a \/ j > Len(t) \/ ~(t[j] \in {CW, CD, CH, CM, CS}) THEN No
             ELSE IF t[j] \in seen THEN No
             ELSE LET am == Amount(SubSeq(t, a, j - 1), t[j])
                      ord == \A c \in seen : Rank(c) < Rank(t[j])
                      tOk == IF t[j] \in {CW, CD} THEN ~hasT /\ ~tt ELSE hasT # tt
                      rest == RDurFrom(t, j + 1, seen \cup {t[j]},
                                       IF am.k = "ok" THEN NormD(total[1] + am.v[1],
                                                                 total[2] + am.v[2]) ELSE total,
                                       tt \/ hasT, good /\ ord /\ tOk)
                  IN  IF rest.k = "bad" THEN No
                      ELSE IF am.k = "bad" THEN No
                      ELSE IF am.k = "free" \/ rest.k = "free" THEN Free
                      ELSE rest
RDuration(t) ==
    LET signed == Len(t) > 0 /\ t[1] \in {PLUS, MINUS}
        p == IF signed THEN 2 ELSE 1
        r == RDurFrom(t, p + 1, {}, <<0, 0>>, FALSE, TRUE)
        v == IF signed /\ t[1] = MINUS THEN NegD(r.v) ELSE r.v
    IN  IF Len(t) < p \/ t[p] # CP THEN No
        ELSE IF r.k \in {"bad", "free"} THEN r
        ELSE IF v[1] > MAXDUR \/ v[1] < -MAXDUR THEN No
        ELSE [r EXCEPT !.v = v]

EndOfPeriod(b, d) == NormD(b.w[1] + d[1], b.w[2] + d[2])
RPeriod(t, tzids, known) ==
    LET i == Find(t, {SLASH}, 1)
        b == RDateTime(Until(t, i), DTLENS, tzids, known)
        rest == From(t, i + 1)
        isDur == Len(rest) > 0 /\ rest[1] = CP
        d == RDuration(rest)
        e == RDateTime(rest, DTLENS, tzids, known)
        other == IF isDur THEN d ELSE e
        strict == b.k = "ok" /\ other.k = "ok"
        v == IF isDur THEN [b |-> b.v, e |-> <<>>, d |-> <<d.v>>]
             ELSE [b |-> b.v, e |-> <<e.v>>, d |-> <<>>]
    IN  IF i > Len(t) \/ b.k = "bad" THEN No
        ELSE IF ~isDur /\ Len(rest) > 1 /\ rest[1] \in {PLUS, MINUS} /\ rest[2] = CP
             THEN Free                           \* a signed duration
        ELSE IF other.k = "bad" THEN No
        ELSE IF b.k = "free" \/ other.k = "free" THEN Free
        ELSE IF isDur /\ (d.v[1] > MAXDAY \/ EndOfPeriod(b.v, d.v)[1] > MAXDAY)
             THEN Free                           \* ends after 9999
        ELSE IF ~isDur /\ (b.v.z # e.v.z \/ ~LeT(b.v.w, e.v.w)) THEN No
        ELSE IF strict THEN Ok(v) ELSE Weaken(Ok(v))

Read(kind, t, tzids, known) ==
    CASE kind = "date"     -> LET r == RDateTime(t, DATELENS, tzids, known)
                              IN  IF r.k \in {"ok", "maybe"}
                                  THEN [r EXCEPT !.v = r.v.w[1],
                                                 !.k = IF r.v.z = <<>> /\ Len(t) = 8
                                                       THEN r.k ELSE "maybe"]
                                  ELSE r
      [] kind = "datetime" -> RDateTime(t, DTLENS, tzids, known)
      [] kind = "time"     -> RTime(t, tzids, known)
      [] kind = "duration" -> RDuration(t)
      [] kind = "offset"   -> ROffset(t)
      [] kind = "period"   -> RPeriod(t, tzids, known)

(* does an outcome [ok, res, exc] agree with a verdict; "" or the failure *)
Judge(r, o) ==
    IF o.ok THEN IF r.k = "bad" THEN "a malformed value was accepted"
                 ELSE IF r.k # "free" /\ o.res # r.v THEN "a value was read wrongly"
                 ELSE ""
    ELSE IF r.k = "ok" THEN "a well-formed value was rejected"
    ELSE IF o.exc # "ValueError" THEN "a value was rejected with the wrong kind of error"
    ELSE ""
=============================================================================
