----------------------------- MODULE CloneTrace -----------------------------
(* Recorded histories of clones and edits; after every call every object   *)
(* is dumped: o its value, t its class, text what it writes, tl the number *)
(* of entries of its timeline (C20).                                       *)
EXTENDS Clones, TraceRun

MyStart(s) == s.start

SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
SamePs(p, q) == /\ DOMAIN p = DOMAIN q
                /\ \A k \in DOMAIN p :
                     /\ p[k].m = q[k].m /\ Len(p[k].ps) = Len(q[k].ps)
                     /\ \A i \in 1..Len(p[k].ps) : SameFn(p[k].ps[i], q[k].ps[i])
Same(o, e) == o.cls = e.cls /\ o.xn = e.xn /\ o.x = e.x /\ SameFn(o.a, e.a) /\ SamePs(o.p, e.p)
What(o, e) == CASE ~SameFn(o.a, e.a) -> "attribute " \o ToString(CHOOSE n \in DOMAIN o.a : n \notin DOMAIN e.a \/ o.a[n] # e.a[n])
                [] o.x # e.x -> "unknown properties"
                [] o.xn # e.xn -> "name of the unknown properties"
                [] ~SamePs(o.p, e.p) -> "extra parameters"
                [] OTHER -> "class"
SameDump(d, e) == Same(d.o, e.o) /\ d.t = e.t /\ d.text = e.text /\ d.tl = e.tl
Others(s, ev, i) == {j \in 1..Len(s) : j # i /\ ~SameDump(s[j], ev.obs[j])}

MyExplain(s, ev) ==
    LET i == ev.i
        n == IF ev.op.k = "clone" THEN Len(s) + 1 ELSE Len(s)
        new == ev.obs[Len(ev.obs)]
        seen == ev.obs[i].o
        want == IF ev.op.k = "span"     \* only this attribute may change, however
                THEN [s[i].o EXCEPT !.a.timespan = seen.a.timespan]
                ELSE Edited(s[i].o, ev.op)
    IN  IF ~ev.ok /\ ev.op.k # "span" THEN Bad("a call raised", <<ev.op.k, ev.exc>>)
        ELSE IF Len(ev.obs) # n THEN Bad("number of objects", "")
        ELSE IF ev.op.k = "clone" /\ Others(s, ev, 0) # {}
             THEN Bad("cloning changed an existing object", Others(s, ev, 0))
        ELSE IF ev.op.k = "clone" /\ ~(ev.fresh /\ ev.eq)
             THEN Bad("a clone is not a new equal object", <<ev.fresh, ev.eq>>)
        ELSE IF ev.op.k = "clone" /\ ~SameDump(s[i], new)
             THEN Bad("a clone differs from its original", IF Same(s[i].o, new.o) THEN "text or class" ELSE What(s[i].o, new.o))
        ELSE IF ev.op.k = "clone" THEN Good(ev.obs)
        ELSE IF Others(s, ev, i) # {}
             THEN LET j == CHOOSE h \in Others(s, ev, i) : TRUE
                  IN  Bad("an edit of one object shows in another",
                          <<i, j, IF Same(s[j].o, ev.obs[j].o) THEN "text" ELSE What(s[j].o, ev.obs[j].o)>>)
        ELSE IF ~ev.ok /\ Same(s[i].o, seen) THEN Good(ev.obs)
        ELSE IF ~ev.ok \/ ~Same(want, seen) \/ ev.obs[i].t # s[i].t
             THEN Bad("an edit did not have its effect", What(want, seen))
        ELSE Good(ev.obs)
=============================================================================
