----------------------------- MODULE PersonTrace ----------------------------
(* Recorded histories of several persons: all of them are dumped after     *)
(* every call, and written and read back in an event or an alarm (C21).    *)
EXTENDS Persons, TraceRun

MyStart(s) == <<>>

SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
SameP(p, q) == p.who = q.who /\ p.e = q.e /\ SameFn(p.x, q.x)
ReadOk(w, r) == w.k = "free" \/ (w.k = r.k /\ (w.k = "ok" => w.v = r.v))
BadReads(p, rs) == {i \in 1..Len(Props(p.who)) : Len(rs) < i \/ ~ReadOk(AllReads(p)[i], rs[i])}
Names(p, is) == {<<Props(p.who)[i].n, AllReads(p)[i]>> : i \in is}
Check(s, obs) ==
    IF Len(s) # Len(obs) THEN Bad("number of persons", "")
    ELSE LET wrong == {i \in 1..Len(s) : ~SameP(s[i], obs[i].p)}
             reads == {i \in 1..Len(s) : BadReads(s[i], obs[i].r) # {}}
         IN  IF wrong # {} THEN Bad("a person is not as it should be",
                                    LET i == CHOOSE i \in wrong : TRUE IN <<i, s[i], obs[i].p>>)
             ELSE IF reads # {} THEN Bad("a property reads wrongly",
                                         LET i == CHOOSE i \in reads : TRUE
                                         IN  <<i, Names(s[i], BadReads(s[i], obs[i].r)), obs[i].r>>)
             ELSE Good(s)

MyExplain(s, ev) ==
    CASE ev.op = "new" ->
           LET p0 == [who |-> ev.who, e |-> ev.e, x |-> ev.x]
               RECURSIVE fill(_, _)
               fill(p, i) == IF i > Len(ev.kw) THEN p ELSE fill(Do(p, ev.kw[i]), i + 1)
           IN  IF ~ev.ok THEN Bad("a constructor raised", ev.exc)
               ELSE Check(Append(s, fill(p0, 1)), ev.obs)
      [] ev.op = "do" -> IF ~ev.ok THEN Bad("a call raised", <<ev.do, ev.exc>>)
                         ELSE Check([s EXCEPT ![ev.i] = Do(@, ev.do)], ev.obs)
      [] ev.op = "trip" ->         \* the same persons, read from the text
           LET back == [i \in 1..Len(s) |-> ReadBack(s[i])]
           IN  IF ~ev.ok THEN Bad("writing or reading persons raised", ev.exc)
               ELSE IF Len(ev.lines) # Len(s) \/ \E i \in 1..Len(s) :
                            ~(ev.lines[i].e = s[i].e /\ SameFn(ev.lines[i].x, Written(s[i])))
                    THEN Bad("a person is written wrongly", <<s, ev.lines>>)
               ELSE IF Check(s, ev.before).c # "" THEN Bad("writing changed a person", Check(s, ev.before).x)
               ELSE Check(back, ev.obs)
=============================================================================
