---------------------------- MODULE Observances -----------------------------
(***************************************************************************)
(* Timezones defined by observances (C16).  A definition is read from the  *)
(* text of a VTIMEZONE into                                                *)
(*   [id, obs |-> <<[dst, from, to, name, rdates, ex, rules], ...>>]       *)
(* with offsets in seconds, local wall times <<day, second>> and yearly    *)
(* rules  [start, months, days, mdays, interval, until, count].            *)
(* Nothing here depends on what was asked before: an answer is a function  *)
(* of the definition, the wall time and its fold.                          *)
(***************************************************************************)
EXTENDS Temporal, ICalText, TextValue, TLC

WVTIMEZONE == <<86, 84, 73, 77, 69, 90, 79, 78, 69>>
WSTANDARD == <<83, 84, 65, 78, 68, 65, 82, 68>>
WDAYLIGHT == <<68, 65, 89, 76, 73, 71, 72, 84>>
WTZID == <<84, 90, 73, 68>>
WDTSTART == <<68, 84, 83, 84, 65, 82, 84>>
WTZOFFSETFROM == <<84, 90, 79, 70, 70, 83, 69, 84, 70, 82, 79, 77>>
WTZOFFSETTO == <<84, 90, 79, 70, 70, 83, 69, 84, 84, 79>>
WRRULE == <<82, 82, 85, 76, 69>>
WRDATE == <<82, 68, 65, 84, 69>>
WEXDATE == <<69, 88, 68, 65, 84, 69>>
WTZNAME == <<84, 90, 78, 65, 77, 69>>
WFREQ == <<70, 82, 69, 81>>
WYEARLY == <<89, 69, 65, 82, 76, 89>>
WINTERVAL == <<73, 78, 84, 69, 82, 86, 65, 76>>
WUNTIL == <<85, 78, 84, 73, 76>>
WCOUNT == <<67, 79, 85, 78, 84>>
WBYMONTH == <<66, 89, 77, 79, 78, 84, 72>>
WBYDAY == <<66, 89, 68, 65, 89>>
WBYMONTHDAY == <<66, 89, 77, 79, 78, 84, 72, 68, 65, 89>>
WWKST == <<87, 75, 83, 84>>

Plus(w, n) == NormD(w[1], w[2] + n)
Lt(a, b) == LeT(a, b) /\ a # b
Lines(items, name) == SelectSeq(items, LAMBDA x : x.t = "line" /\ x.l.name = name)
Has(items, name) == Lines(items, name) # <<>>
Val(items, name) == Lines(items, name)[1].l.value

(* --------------------------------------------------------------- rules *)
DayNo(t) == CASE
              t = <<77, 79>> -> 0
           [] t = <<84, 85>> -> 1
           [] t = <<87, 69>> -> 2
           [] t = <<84, 72>> -> 3
           [] t = <<70, 82>> -> 4
           [] t = <<83, 65>> -> 5
           [] t = <<83, 85>> -> 6
           [] OTHER -> -1
Number(t) ==            \* an integer with an optional sign
    LET signed == t # <<>> /\ t[1] \in {PLUS, MINUS}
        u == IF signed THEN Tail(t) ELSE t
    IN  IF signed /\ t[1] = MINUS THEN -Num(u, 1, Len(u)) ELSE Num(u, 1, Len(u))
Numbers(t) == LET ts == Split(t, {COMMA}) IN {Number(ts[i]) : i \in 1..Len(ts)}
ByDay(t) ==             \* +1SU, -1SU or SU
    [n |-> IF Len(t) = 2 THEN 0 ELSE Number(Until(t, Len(t) - 1)),
     d |-> DayNo(SubSeq(t, Len(t) - 1, Len(t)))]
ByDays(t) == LET ts == Split(t, {COMMA}) IN {ByDay(ts[i]) : i \in 1..Len(ts)}

PartOf(ps, name) == LET is == {i \in 1..Len(ps) : ps[i].n = name}
                    IN  IF is = {} THEN <<>> ELSE <<ps[CHOOSE i \in is : TRUE].v>>
RuleOf(t, start, off) ==
    LET parts == Split(Upper(t), {SEMI})
        ps == [i \in 1..Len(parts) |-> LET j == Find(parts[i], {EQ}, 1)
                                      IN  [n |-> Until(parts[i], j), v |-> From(parts[i], j + 1)]]
        p(n) == PartOf(ps, n)
        int(n, default) == IF p(n) = <<>> THEN default ELSE Number(p(n)[1])
        set(n) == IF p(n) = <<>> THEN {} ELSE Numbers(p(n)[1])
        u == IF p(WUNTIL) = <<>> THEN <<>>
             ELSE LET v == RDateTime(p(WUNTIL)[1], DTLENS, <<>>, {}).v
                  IN  <<IF v.z = UTC THEN Plus(v.w, off) ELSE v.w>>  \* perhaps beyond year 9999
        days == IF p(WBYDAY) = <<>> THEN {} ELSE ByDays(p(WBYDAY)[1])
        md == set(WBYMONTHDAY)
        c == Civil(start[1])
    IN  [yearly |-> p(WFREQ) = <<WYEARLY>>, start |-> start,
         months |-> IF set(WBYMONTH) # {} THEN set(WBYMONTH) ELSE {c[2]},
         days |-> days,
         mdays |-> IF md = {} /\ days = {} THEN {c[3]} ELSE md,
         interval |-> int(WINTERVAL, 1), until |-> u, count |-> int(WCOUNT, 0)]

(* the days of a year on which a rule falls *)
DayFits(r, d, n, w) ==       \* d of n days, a weekday w
    /\ r.mdays = {} \/ d \in r.mdays \/ (d - n - 1) \in r.mdays
    /\ r.days = {} \/ \E b \in r.days :
          /\ b.d = w
          /\ b.n = 0 \/ b.n = (d - 1) \div 7 + 1 \/ b.n = -((n - d) \div 7 + 1)
MonthDays(r, y, m) ==
    LET n == DaysIn(y, m)
        b == TLCEval(DayOf(y, m, 1)) - 1
    IN  {b + d : d \in {k \in 1..n : DayFits(r, k, n, (b + k - 1) % 7)}}
YearDays(r, y) ==
    IF (y - Civil(r.start[1])[1]) % r.interval # 0 THEN {}
    ELSE UNION {MonthDays(r, y, m) : m \in r.months}
InYear(r, y) == {w \in {<<d, r.start[2]>> : d \in YearDays(r, y)} :
                   LeT(r.start, w) /\ (r.until = <<>> \/ LeT(w, r.until[1]))}
RECURSIVE Before(_, _, _)       \* occurrences before year y
Before(r, y, first) == IF y <= first THEN 0
                       ELSE Cardinality(InYear(r, y - 1)) + Before(r, y - 1, first)
Counted(r, y) ==
    IF r.count = 0 THEN InYear(r, y)
    ELSE LET b == Before(r, y, Civil(r.start[1])[1])
             all == InYear(r, y)
         IN  {w \in all : b + Cardinality({v \in all : LeT(v, w)}) <= r.count}

Latest(S) == CHOOSE w \in S : \A v \in S : LeT(v, w)
(* the latest of all occurrences up to t but those in ex, as <<w>> or <<>>; *)
(* an excluded occurrence still counts                                     *)
RECURSIVE CountedBefore(_, _, _, _, _, _)  \* n occurrences lie before year y
CountedBefore(r, ex, t, y, n, last) ==
    IF n >= r.count \/ y > Civil(t[1])[1] THEN last
    ELSE LET all == TLCEval(InYear(r, y))
             S == {w \in all \ ex : LeT(w, t) /\ n + Cardinality({v \in all : LeT(v, w)}) <= r.count}
         IN  CountedBefore(r, ex, t, y + 1, n + Cardinality(all), IF S = {} THEN last ELSE <<Latest(S)>>)
RECURSIVE RuleBefore(_, _, _, _)
RuleBefore(r, ex, t, y) ==
    IF y < Civil(r.start[1])[1] THEN <<>>
    ELSE IF r.count > 0 THEN CountedBefore(r, ex, t, Civil(r.start[1])[1], 0, <<>>)
    ELSE IF r.until # <<>> /\ y > Civil(r.until[1][1])[1]
         THEN RuleBefore(r, ex, t, Civil(r.until[1][1])[1])
    ELSE LET S == {w \in InYear(r, y) \ ex : LeT(w, t)}
         IN  IF S # {} THEN <<Latest(S)>> ELSE RuleBefore(r, ex, t, y - 1)

(* --------------------------------------------------------- observances *)
RECURSIVE DatesFrom(_, _)
DatesFrom(ls, i) ==
    IF i > Len(ls) THEN {}
    ELSE LET ts == Split(ls[i].l.value, {COMMA})
         IN  {RDateTime(ts[k], DTLENS, <<>>, {}).v.w : k \in 1..Len(ts)} \cup DatesFrom(ls, i + 1)

ObsOk(x) == /\ Has(x.items, WDTSTART) /\ Has(x.items, WTZOFFSETFROM) /\ Has(x.items, WTZOFFSETTO)
            /\ RDateTime(Val(x.items, WDTSTART), DTLENS, <<>>, {}).k = "ok"
            /\ ROffset(Val(x.items, WTZOFFSETFROM)).k = "ok"
            /\ ROffset(Val(x.items, WTZOFFSETTO)).k = "ok"
ObsOf(x) ==
    LET its == x.items
        start == RDateTime(Val(its, WDTSTART), DTLENS, <<>>, {}).v.w
        off == ROffset(Val(its, WTZOFFSETFROM)).v
        rr == Lines(its, WRRULE)
    IN  [dst |-> x.name = WDAYLIGHT, from |-> off, to |-> ROffset(Val(its, WTZOFFSETTO)).v,
         name |-> IF Has(its, WTZNAME) THEN <<Unescape(Val(its, WTZNAME)).v>> ELSE <<>>,
         rdates |-> TLCEval({start} \cup DatesFrom(Lines(its, WRDATE), 1)),
         ex |-> TLCEval(DatesFrom(Lines(its, WEXDATE), 1)),
         rules |-> TLCEval([i \in 1..Len(rr) |-> RuleOf(rr[i].l.value, start, off)])]

IsObs(x) == x.t = "comp" /\ x.name \in {WSTANDARD, WDAYLIGHT}
(* the definition a VTIMEZONE gives *)
DefOf(x) ==
    LET os == SelectSeq(x.items, IsObs)
    IN  IF ~Has(x.items, WTZID) \/ os = <<>> \/ \E i \in 1..Len(os) : ~ObsOk(os[i])
        THEN Failure
        ELSE Result([id |-> Val(x.items, WTZID), obs |-> TLCEval([i \in 1..Len(os) |-> ObsOf(os[i])])])
RECURSIVE ZonesIn(_, _)
ZonesIn(items, i) ==     \* the VTIMEZONEs of a component or text
    IF i > Len(items) THEN <<>>
    ELSE (IF items[i].t = "comp"
          THEN IF items[i].name = WVTIMEZONE THEN <<items[i]>> ELSE ZonesIn(items[i].items, 1)
          ELSE <<>>) \o ZonesIn(items, i + 1)

(* the latest onset of an observance up to t, as <<w>> or <<>> *)
OnsetBefore(o, t) ==
    LET y == Civil(t[1])[1]
        S == {w \in o.rdates \ o.ex : LeT(w, t)}
             \cup UNION {LET b == RuleBefore(o.rules[i], o.ex, t, y) IN {b[k] : k \in 1..Len(b)} :
                           i \in 1..Len(o.rules)}
    IN  IF S = {} THEN <<>> ELSE <<Latest(S)>>

(***************************************************************************)
(* Which observance is in force at a wall time: the one with the latest    *)
(* onset not after it.  An onset that sets the clock back makes the time   *)
(* before it happen twice; the second pass (fold 1) belongs to it.         *)
(***************************************************************************)
Diff(o) == o.to - o.from
Fallback(def) == LET os == def.obs
                     st == {i \in 1..Len(os) : ~os[i].dst}
                 IN  IF st = {} THEN 1 ELSE CHOOSE i \in st : \A j \in st : i <= j
Winners(on) ==      \* indices of the latest of the onsets <<w>> or <<>>
    {i \in 1..Len(on) : on[i] # <<>> /\ \A j \in 1..Len(on) :
                                            on[j] = <<>> \/ LeT(on[j][1], on[i][1])}
InForce(def, t, f) ==
    LET on == [i \in 1..Len(def.obs) |->
                 TLCEval(OnsetBefore(def.obs[i], IF f = 1 /\ Diff(def.obs[i]) < 0
                                                 THEN Plus(t, -Diff(def.obs[i])) ELSE t))]
        W == Winners(on)
    IN  IF W = {} THEN {Fallback(def)} ELSE W
Answer(o) == [off |-> o.to, dst |-> IF o.dst THEN Diff(o) ELSE 0, name |-> o.name]
(* the allowed answers; more than one only if two onsets coincide *)
Answers(def, t, f) == {Answer(def.obs[i]) : i \in InForce(def, t, f)}

(* ---------------------------------------------------- from UTC to local *)
YearsAround(u) == {Civil(u[1] - 3)[1], Civil(u[1] + 3)[1]}
Onsets(o, u) ==
    LET S == UNION {UNION {Counted(o.rules[i], y) : y \in YearsAround(u)} : i \in 1..Len(o.rules)}
    IN  {w \in (o.rdates \cup S) \ o.ex : w[1] >= u[1] - 3 /\ w[1] <= u[1] + 3}
AtUtc(def, u) ==      \* observances whose onset is the latest before the instant u
    LET on == [i \in 1..Len(def.obs) |-> TLCEval(
                 LET b == OnsetBefore(def.obs[i], Plus(u, def.obs[i].from))
                 IN  IF b = <<>> THEN <<>> ELSE <<Plus(b[1], -def.obs[i].from)>>)]
        W == Winners(on)
    IN  IF W = {} THEN {Fallback(def)} ELSE W
OffUtc(def, u) == def.obs[CHOOSE i \in AtUtc(def, u) : TRUE].to
Changes(def, u) ==    \* the onsets around u as instants, with their observance
    UNION {{[at |-> Plus(w, -def.obs[i].from), i |-> i] : w \in Onsets(def.obs[i], u)} :
             i \in 1..Len(def.obs)}
(* around u, every onset continues what was in force, and they lie apart *)
Consistent(def, u) ==
    LET C == Changes(def, u)
    IN  /\ \A c \in C : OffUtc(def, Plus(c.at, -1)) = def.obs[c.i].from
        /\ \A c, e \in C : c = e \/ (c.at # e.at
                                      /\ (Lt(c.at, e.at) => LeT(Plus(c.at, DAYSEC), e.at)))
Local(def, u) ==
    LET o == OffUtc(def, u)
        second == \E c \in Changes(def, u) :
                     /\ Diff(def.obs[c.i]) < 0 /\ LeT(c.at, u)
                     /\ Lt(u, Plus(c.at, -Diff(def.obs[c.i])))
    IN  [t |-> Plus(u, o), f |-> IF second THEN 1 ELSE 0]
SkippedWall(def, t) ==
    \E c \in Changes(def, t) : LET o == def.obs[c.i]
                                   w == Plus(c.at, o.from)
                               IN  Diff(o) > 0 /\ LeT(w, t) /\ Lt(t, Plus(w, Diff(o)))

=============================================================================
