----------------------------- MODULE Vtimezones -----------------------------
(***************************************************************************)
(* VTIMEZONE components as data (C22): what has to be kept when a          *)
(* definition is read and written.  A definition is                        *)
(*   [id, url, mod, obs, x]                                                *)
(* with the observances, in order,                                         *)
(*   [kind, from, to, name, comment, dates, ex, rules, x].                 *)
(* Single lines are <<>> or <<[v |-> value, p |-> set of parameters]>>,    *)
(* dates (DTSTART and RDATE) and ex (EXDATE) are sets of wall times, and   *)
(* x are the lines and components nothing is known about, in order.        *)
(* Rules of any frequency are compared part by part, not by meaning.       *)
(***************************************************************************)
EXTENDS Observances, SequencesExt

WTZURL == <<84, 90, 85, 82, 76>>
WLASTMODIFIED == <<76, 65, 83, 84, 45, 77, 79, 68, 73, 70, 73, 69, 68>>
WCOMMENT == <<67, 79, 77, 77, 69, 78, 84>>
WVALUE == <<86, 65, 76, 85, 69>>
WBYSETPOS == <<66, 89, 83, 69, 84, 80, 79, 83>>
WBYYEARDAY == <<66, 89, 89, 69, 65, 82, 68, 65, 89>>
WBYWEEKNO == <<66, 89, 87, 69, 69, 75, 78, 79>>
WBYHOUR == <<66, 89, 72, 79, 85, 82>>
WBYMINUTE == <<66, 89, 77, 73, 78, 85, 84, 69>>
WBYSECOND == <<66, 89, 83, 69, 67, 79, 78, 68>>
WMONTHLY == <<77, 79, 78, 84, 72, 76, 89>>
WWEEKLY == <<87, 69, 69, 75, 76, 89>>
WDAILY == <<68, 65, 73, 76, 89>>

Freqs == {WYEARLY, WMONTHLY, WWEEKLY, WDAILY}
BYNAMES == {WBYMONTH, WBYDAY, WBYMONTHDAY, WBYSETPOS, WBYYEARDAY, WBYWEEKNO, WBYHOUR, WBYMINUTE,
            WBYSECOND}
PARTS == BYNAMES \cup {WFREQ, WINTERVAL, WCOUNT, WUNTIL, WWKST}

(* ------------------------------------------------------- single lines *)
ParamSet(l) == {<<l.params[k].n, [i \in 1..Len(l.params[k].vals) |-> l.params[k].vals[i].v]>> :
                  k \in {j \in 1..Len(l.params) : l.params[j].n # WVALUE}}
Count(items, name) == Len(Lines(items, name))
(* f decodes the value: a verdict with .ok and .v *)
Single(items, name, f(_)) ==
    IF Count(items, name) = 0 THEN <<>>
    ELSE LET l == Lines(items, name)[1].l IN <<[v |-> f(l.value).v, p |-> ParamSet(l)]>>
SingleOk(items, name, f(_)) ==
    \/ Count(items, name) = 0
    \/ Count(items, name) = 1 /\ f(Lines(items, name)[1].l.value).ok
Judged(r) == [ok |-> r.k = "ok", v |-> r.v]
AsOffset(t) == Judged(ROffset(t))
AsStamp(t) == LET r == RDateTime(t, {15}, <<>>, {})
              IN  IF r.k = "ok" /\ r.v.z = UTC THEN Result(r.v.w) ELSE Failure
AsWall(t) == LET r == RDateTime(t, {15}, <<>>, {})
             IN  IF r.k = "ok" /\ r.v.z = <<>> THEN Result(r.v.w) ELSE Failure

(* --------------------------------------------------------------- rules *)
IsNumber(t) == LET u == IF t # <<>> /\ t[1] \in {PLUS, MINUS} THEN Tail(t) ELSE t
               IN  u # <<>> /\ Len(u) < 6 /\ AllDigits(u)
IsDay(t) == Len(t) >= 2 /\ DayNo(SubSeq(t, Len(t) - 1, Len(t))) >= 0
            /\ (Len(t) = 2 \/ IsNumber(Until(t, Len(t) - 1)))
PairsOf(t) ==
    LET parts == Split(Upper(t), {SEMI})
    IN  [i \in 1..Len(parts) |-> LET j == Find(parts[i], {EQ}, 1)
                                 IN  [n |-> Until(parts[i], j), v |-> From(parts[i], j + 1)]]
PairOk(p) ==
    CASE p.n = WFREQ -> p.v \in Freqs
      [] p.n \in {WINTERVAL, WCOUNT} -> /\ p.v # <<>> /\ AllDigits(p.v) /\ Len(p.v) < 9
                                        /\ p.n = WINTERVAL => Number(p.v) > 0
      [] p.n = WUNTIL -> RDateTime(p.v, {8, 15}, <<>>, {}).k = "ok"
      [] p.n = WWKST -> DayNo(p.v) >= 0
      [] p.n = WBYDAY -> LET ts == Split(p.v, {COMMA}) IN \A i \in 1..Len(ts) : IsDay(ts[i])
      [] p.n \in BYNAMES -> LET ts == Split(p.v, {COMMA}) IN \A i \in 1..Len(ts) : IsNumber(ts[i])
      [] OTHER -> FALSE
RulePartsOk(t) == LET ps == PairsOf(t)
                  IN  /\ \A i \in 1..Len(ps) : PairOk(ps[i])
                      /\ \E i \in 1..Len(ps) : ps[i].n = WFREQ
DayCode(b) == b.n * 10 + b.d            \* one number for a weekday with or without a number
Clamped(w) == IF w[1] < 1 THEN <<1, 0>> ELSE IF w[1] > 3652059 THEN <<3652059, 86399>> ELSE w
RuleParts(t, start, off) ==
    LET ps == PairsOf(t)
        p(n) == PartOf(ps, n)
        int(n, default) == IF p(n) = <<>> THEN default ELSE Number(p(n)[1])
        until == RDateTime(p(WUNTIL)[1], {8, 15}, <<>>, {}).v
    IN  [freq |-> p(WFREQ)[1], start |-> start, interval |-> int(WINTERVAL, 1),
         count |-> int(WCOUNT, 0),
         until |-> IF p(WUNTIL) = <<>> THEN <<>>
                   ELSE <<IF until.z = UTC THEN Clamped(Plus(until.w, off)) ELSE until.w>>,
         wkst |-> IF p(WWKST) = <<>> THEN 0 ELSE DayNo(p(WWKST)[1]),
         by |-> {<<n, IF n = WBYDAY THEN {DayCode(b) : b \in ByDays(p(n)[1])} ELSE Numbers(p(n)[1])>> :
                   n \in {n \in BYNAMES : p(n) # <<>>}}]

(* ----------------------------------------------------- the definition *)
DateTexts(ls) == UNION {LET ts == Split(ls[i].l.value, {COMMA}) IN {ts[k] : k \in 1..Len(ts)} :
                          i \in 1..Len(ls)}
DateSet(ls) == {AsWall(t).v : t \in DateTexts(ls)}
KnownInObs == {WDTSTART, WTZOFFSETFROM, WTZOFFSETTO, WTZNAME, WCOMMENT, WRRULE, WRDATE, WEXDATE}
ObsValid(x) ==
    LET its == x.items
    IN  /\ Count(its, WDTSTART) = 1 /\ Count(its, WTZOFFSETFROM) = 1 /\ Count(its, WTZOFFSETTO) = 1
        /\ SingleOk(its, WTZOFFSETFROM, AsOffset) /\ SingleOk(its, WTZOFFSETTO, AsOffset)
        /\ SingleOk(its, WTZNAME, Unescape) /\ SingleOk(its, WCOMMENT, Unescape)
        /\ \A t \in DateTexts(Lines(its, WDTSTART) \o Lines(its, WRDATE) \o Lines(its, WEXDATE)) :
              AsWall(t).ok
        /\ \A i \in 1..Count(its, WRRULE) : RulePartsOk(Lines(its, WRRULE)[i].l.value)
Unknown(items, known) ==
    PlainItems(SelectSeq(items, LAMBDA i : IF i.t = "line" THEN i.l.name \notin known
                                           ELSE ~(IsObs(i) /\ WTZID \in known)))
ObsDef(x) ==
    LET its == x.items
        start == AsWall(Val(its, WDTSTART)).v
        from == Single(its, WTZOFFSETFROM, AsOffset)
        rr == Lines(its, WRRULE)
    IN  [kind |-> x.name, from |-> from, to |-> Single(its, WTZOFFSETTO, AsOffset),
         name |-> Single(its, WTZNAME, Unescape), comment |-> Single(its, WCOMMENT, Unescape),
         dates |-> {start} \cup DateSet(Lines(its, WRDATE)), ex |-> DateSet(Lines(its, WEXDATE)),
         rules |-> [i \in 1..Len(rr) |-> RuleParts(rr[i].l.value, start, from[1].v)],
         x |-> Unknown(its, KnownInObs)]
KnownInTz == {WTZID, WTZURL, WLASTMODIFIED}
TzDef(x) ==
    LET its == x.items
        os == SelectSeq(its, IsObs)
    IN  IF ~(/\ Count(its, WTZID) = 1 /\ SingleOk(its, WTZID, Unescape)
             /\ SingleOk(its, WTZURL, Result) /\ SingleOk(its, WLASTMODIFIED, AsStamp)
             /\ \A i \in 1..Len(os) : ObsValid(os[i]))
        THEN Failure
        ELSE Result([id |-> Single(its, WTZID, Unescape), url |-> Single(its, WTZURL, Result),
                     mod |-> Single(its, WLASTMODIFIED, AsStamp),
                     obs |-> TLCEval([i \in 1..Len(os) |-> TLCEval(ObsDef(os[i]))]),
                     x |-> Unknown(its, KnownInTz)])

(* --------------------------------------------------- writing it again *)
LineItem(n, ps, v) == [t |-> "line", l |-> Line(n, ps, v)]
ToParams(S) == LET s == SetToSeq(S)
               IN  [i \in 1..Len(s) |-> [n |-> s[i][1],
                                         vals |-> [k \in 1..Len(s[i][2]) |->
                                                     [q |-> FALSE, v |-> s[i][2][k]]]]]
SingleItem(n, f, w(_)) == IF f = <<>> THEN <<>> ELSE <<LineItem(n, ToParams(f[1].p), w(f[1].v))>>
Same(t) == t
Stamp(w) == WDateTime([w |-> w, z |-> UTC])
Wall(w) == WDateTime([w |-> w, z |-> <<>>])
Signed(n) == IF n < 0 THEN <<MINUS>> \o Digits(-n, 1) ELSE Digits(n, 1)
DayName(d) == CASE d = 0 -> <<77, 79>> [] d = 1 -> <<84, 85>> [] d = 2 -> <<87, 69>>
                [] d = 3 -> <<84, 72>> [] d = 4 -> <<70, 82>> [] d = 5 -> <<83, 65>>
                [] OTHER -> <<83, 85>>
DayText(c) == LET d == c % 10
                  n == (c - d) \div 10
              IN  (IF n = 0 THEN <<>> ELSE Signed(n)) \o DayName(d)
PartText(n, v) == <<n \o <<EQ>> \o v>>
WRule(r, off) ==
    LET by == SetToSeq(r.by)
        vals(b) == LET s == SetToSeq(b[2])
                   IN  Join([i \in 1..Len(s) |-> IF b[1] = WBYDAY THEN DayText(s[i]) ELSE Signed(s[i])],
                            <<COMMA>>)
    IN  Join(PartText(WFREQ, r.freq)
             \o (IF r.interval = 1 THEN <<>> ELSE PartText(WINTERVAL, Signed(r.interval)))
             \o (IF r.wkst = 0 THEN <<>> ELSE PartText(WWKST, DayName(r.wkst)))
             \o (IF r.count = 0 THEN <<>> ELSE PartText(WCOUNT, Signed(r.count)))
             \o (IF r.until = <<>> THEN <<>> ELSE PartText(WUNTIL, Stamp(Plus(r.until[1], -off))))
             \o [i \in 1..Len(by) |-> by[i][1] \o <<EQ>> \o vals(by[i])], <<SEMI>>)
DateItems(n, S) == LET s == SetToSortSeq(S, Lt) IN [i \in 1..Len(s) |-> LineItem(n, <<>>, Wall(s[i]))]
Requote(xs) ==          \* the plain items as items of a text
    LET quoted(l) == [l EXCEPT !.params = [k \in 1..Len(l.params) |->
                        [n |-> l.params[k].n,
                         vals |-> [i \in 1..Len(l.params[k].vals) |->
                                     [q |-> FALSE, v |-> l.params[k].vals[i]]]]]]
        RECURSIVE item(_)
        item(x) == IF x.t = "line" THEN [x EXCEPT !.l = quoted(x.l)]
                   ELSE [x EXCEPT !.items = [i \in 1..Len(x.items) |-> item(x.items[i])]]
    IN  [i \in 1..Len(xs) |-> item(xs[i])]
FirstOnset(o) == IF o.rules # <<>> THEN o.rules[1].start ELSE CHOOSE w \in o.dates : \A v \in o.dates : LeT(w, v)
ObsItem(o) ==
    [t |-> "comp", name |-> o.kind,
     items |-> SingleItem(WTZOFFSETFROM, o.from, WOffset) \o SingleItem(WTZOFFSETTO, o.to, WOffset)
               \o <<LineItem(WDTSTART, <<>>, Wall(FirstOnset(o)))>>
               \o [i \in 1..Len(o.rules) |-> LineItem(WRRULE, <<>>, WRule(o.rules[i], o.from[1].v))]
               \o DateItems(WRDATE, o.dates) \o DateItems(WEXDATE, o.ex)
               \o SingleItem(WTZNAME, o.name, Escape) \o SingleItem(WCOMMENT, o.comment, Escape)
               \o Requote(o.x)]
TzItem(d) ==
    [t |-> "comp", name |-> WVTIMEZONE,
     items |-> SingleItem(WTZID, d.id, Escape) \o [i \in 1..Len(d.obs) |-> ObsItem(d.obs[i])]
               \o SingleItem(WTZURL, d.url, Same) \o SingleItem(WLASTMODIFIED, d.mod, Stamp)
               \o Requote(d.x)]
=============================================================================
