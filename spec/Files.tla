------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Which texts are calendars at all (C23).  The verdict of a text is       *)
(*   "ok"    it must be read,                                              *)
(*   "bad"   it must be rejected,                                          *)
(*   "free"  it may be read or rejected.                                   *)
(* It is put together from the grammar of lines and folding (ICalText),    *)
(* the nesting, what a calendar needs (Components) and what its timezone   *)
(* definitions need (Vtimezones).                                          *)
(***************************************************************************)
EXTENDS Components

V == INSTANCE Vtimezones

TVCALENDAR == <<86, 67, 65, 76, 69, 78, 68, 65, 82>>

(* names as strings: a table of those that mean something *)
RECURSIVE NameFrom(_, _, _)
NameFrom(table, t, i) == IF i > Len(table) THEN "?"
                         ELSE IF table[i].c = t THEN table[i].s ELSE NameFrom(table, t, i + 1)
Named(table, t) == NameFrom(table, t, 1)
RECURSIVE ToTree(_, _)
ToTree(table, x) ==
    IF x.t = "line"
    THEN [t |-> "line", n |-> Named(table, x.l.name), v |-> x.l.value,
          ps |-> [k \in 1..Len(x.l.params) |->
                    [n |-> Named(table, x.l.params[k].n),
                     vals |-> [i \in 1..Len(x.l.params[k].vals) |-> Named(table, x.l.params[k].vals[i].v)]]]]
    ELSE [t |-> "comp", n |-> Named(table, x.name),
          items |-> TLCEval([i \in 1..Len(x.items) |-> ToTree(table, x.items[i])])]

(* --------------------------------------------------- timezone definitions *)
Recurring == {V!WDTSTART, V!WRRULE, V!WRDATE, V!WEXDATE}
WEXRULE == <<69, 88, 82, 85, 76, 69>>
OneOf(its, n) == V!Count(its, n) = 1
AtMost(its, n) == V!Count(its, n) <= 1
AreLines(its, ns) == \A i \in 1..Len(its) : its[i].t = "comp" => its[i].name \notin ns
OffsetBad(its, n) == V!ROffset(V!Lines(its, n)[1].l.value).k = "bad"
ObsVerdict(x) ==
    LET its == x.items
    IN  IF ~AreLines(its, V!KnownInObs \cup {WEXRULE}) THEN "free"
        ELSE IF \/ \E n \in {V!WDTSTART, V!WTZOFFSETFROM, V!WTZOFFSETTO} : ~OneOf(its, n)
                \/ \E n \in {V!WTZNAME, V!WCOMMENT} : ~AtMost(its, n)
                \/ \E n \in {V!WTZOFFSETFROM, V!WTZOFFSETTO} : OffsetBad(its, n)
             THEN "bad"
        ELSE IF \/ \E i \in 1..Len(its) : its[i].t = "line" /\
                      (its[i].l.name = WEXRULE \/ (its[i].l.name \in Recurring /\ its[i].l.params # <<>>))
                \/ \E n \in {V!WTZOFFSETFROM, V!WTZOFFSETTO, V!WTZNAME, V!WCOMMENT} :
                      \E i \in 1..V!Count(its, n) : V!Lines(its, n)[i].l.params # <<>>
                \/ ~V!ObsValid(x)
             THEN "free"
        ELSE "ok"
KnownTz == {V!WTZID, V!WTZURL, V!WLASTMODIFIED}
TzVerdict(x) ==
    LET its == x.items
        os == SelectSeq(its, V!IsObs)
        ov == {ObsVerdict(os[i]) : i \in 1..Len(os)}
    IN  IF ~AreLines(its, KnownTz)
           \/ \E i \in 1..Len(its) : its[i].t = "line" /\ its[i].l.name \in {V!WSTANDARD, V!WDAYLIGHT}
        THEN "free"
        ELSE IF ~OneOf(its, V!WTZID) \/ \E n \in KnownTz : ~AtMost(its, n) THEN "bad"
        ELSE IF "bad" \in ov THEN "bad"
        ELSE IF "free" \in ov \/ os = <<>>
                \/ (\E n \in KnownTz : \E i \in 1..V!Count(its, n) : V!Lines(its, n)[i].l.params # <<>>)
                \/ (\E i \in 1..V!Count(its, V!WTZURL) : HasAny(V!Lines(its, V!WTZURL)[i].l.value, {91, 93}))
                \/ ~V!TzDef(x).ok
             THEN "free"
        ELSE "ok"

(* ------------------------------------------------------------ whole texts *)
Combine(S) == IF "bad" \in S THEN "bad" ELSE IF "free" \in S THEN "free" ELSE "ok"
CalendarVerdict(table, x) ==
    LET zs == SelectSeq(x.items, LAMBDA i : i.t = "comp" /\ i.name = V!WVTIMEZONE)
        odd == \E i \in 1..Len(x.items) : x.items[i].t = "line" /\ x.items[i].l.name = V!WVTIMEZONE
    IN  IF odd THEN "free"
        ELSE Combine({TzVerdict(zs[i]) : i \in 1..Len(zs)}
                     \cup {Import("calendar", TLCEval(ToTree(table, x)).items, "UTC").k})
Parsed(t) == V!ParseText(t)
IsCal(x) == x.t = "comp" /\ x.name = TVCALENDAR
Verdict(table, text) ==
    LET t == TLCEval(text)
        r == TLCEval(Parsed(t))
    IN  IF ~r.ok \/ Len(r.v) # 1 THEN "bad"
        ELSE IF ~IsCal(r.v[1]) THEN "bad"
        ELSE CalendarVerdict(table, r.v[1])
=============================================================================
