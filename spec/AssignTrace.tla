---------------------------- MODULE AssignTrace -----------------------------
(* Recorded constructions and assignments over several classes and         *)
(* subclasses with attributes of their own (C18).                          *)
EXTENDS Assign, TraceRun

TraceZones == Header.zones
MyStart(s) == [local |-> s.local, classes |-> s.classes, objs |-> <<>>]

Cls(s, ci) == s.classes[ci].cls
Ctx(s, ci) == [own |-> s.classes[ci].own, local |-> s.local]
Fixed == {"uid", "dtstamp", "version", "prodid", "timespan"}

SameAll(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : SameVals(a[n], b[n])
FirstDiff(a, b) == IF DOMAIN a # DOMAIN b THEN "attributes"
                   ELSE LET n == CHOOSE m \in DOMAIN a : ~SameVals(a[m], b[m]) IN <<n, a[n], b[n]>>
AllSame(s, ev) == /\ Len(s.objs) = Len(ev.obs)
                  /\ \A i \in 1..Len(s.objs) : SameAll(s.objs[i].a, ev.obs[i])
Differs(s, ev) == IF Len(s.objs) # Len(ev.obs) THEN "number of objects"
                  ELSE LET i == CHOOSE j \in 1..Len(s.objs) : ~SameAll(s.objs[j].a, ev.obs[j])
                       IN  <<i, FirstDiff(s.objs[i].a, ev.obs[i])>>
Settled(s, ev) == IF AllSame(s, ev) THEN Good(s)
                  ELSE Bad("an object is not as it should be", Differs(s, ev))

ExplainNew(s, ev) ==
    LET ns == DOMAIN ev.kw
        o(n) == Given(Ctx(s, ev.ci), Cls(s, ev.ci), n, ev.kw[n])
        badN == {n \in ns : o(n).k \notin {"ok", "free"}}
        freeN == {n \in ns : o(n).k = "free"}
        last == ev.obs[Len(ev.obs)]
        fits(n) == CASE n \in ns \ freeN -> SameVals(o(n).v, last[n])
                     [] n \in freeN \cup Fixed -> TRUE
                     [] OTHER -> last[n] = <<>>
    IN  IF badN # {} /\ ev.ok THEN Bad("a constructor accepted an invalid value", badN)
        ELSE IF badN # {} /\ freeN = {} /\ ~\E n \in badN : Covers(o(n).k, ev.exc)
             THEN Bad("a constructor raised the wrong kind of error", <<badN, ev.exc>>)
        ELSE IF badN = {} /\ freeN = {} /\ ~ev.ok THEN Bad("a constructor rejected valid values", ev.exc)
        ELSE IF ~ev.ok THEN Settled(s, ev)
        ELSE IF Len(ev.obs) # Len(s.objs) + 1 THEN Bad("number of objects", "")
        ELSE IF ~\A n \in DOMAIN last : fits(n)
             THEN Bad("a new object does not hold what it was given", CHOOSE n \in DOMAIN last : ~fits(n))
        ELSE Settled([s EXCEPT !.objs = Append(@, [ci |-> ev.ci, a |-> last])], ev)

ExplainAssign(s, ev) ==
    LET ob == s.objs[ev.i]
        o == Given(Ctx(s, ob.ci), Cls(s, ob.ci), ev.n, ev.raw)
        seen == ev.obs[ev.i][ev.n]
    IN  IF ev.twin # <<>> /\ ~(/\ ev.twin[1].ok = ev.ok /\ ev.twin[1].exc = ev.exc
                               /\ ev.ok => SameVals(ev.twin[1].v, seen))
        THEN Bad("assignment and construction treat a value differently", ev.twin[1])
        ELSE IF o.k = "ok" /\ ~ev.ok THEN Bad("an assignment rejected a valid value", ev.exc)
        ELSE IF o.k \notin {"ok", "free"} /\ ev.ok THEN Bad("an assignment accepted an invalid value", o.k)
        ELSE IF o.k \notin {"ok", "free"} /\ ~Covers(o.k, ev.exc)
             THEN Bad("an assignment raised the wrong kind of error", <<o.k, ev.exc>>)
        ELSE IF ~ev.ok THEN IF AllSame(s, ev) THEN Good(s)
                            ELSE Bad("a rejected assignment changed an object", Differs(s, ev))
        ELSE Settled([s EXCEPT !.objs[ev.i].a[ev.n] = IF o.k = "ok" THEN o.v ELSE seen], ev)

MyExplain(s, ev) ==
    CASE ev.op = "new" -> ExplainNew(s, ev)
      [] ev.op = "assign" -> ExplainAssign(s, ev)
      (* the caller's own list is changed, or nothing happens *)
      [] ev.op = "touch" -> IF AllSame(s, ev) THEN Good(s)
                            ELSE Bad("changing the list given to an attribute changed the attribute", Differs(s, ev))
=============================================================================
