----------------------------- MODULE ScopeTrace -----------------------------
(* Recorded schedules: after every step all entries created so far are     *)
(* dumped as [uid, stamp |-> wall time in UTC, utc |-> BOOLEAN] (C17).     *)
EXTENDS Scopes, TraceRun

TraceZones == Header.zones
Root == [kind |-> "root", inh |-> <<>>, own |-> <<>>]
MyStart(s) == [local |-> s.local, agents |-> <<Root>>, entries |-> <<>>, scopes |-> {}]

Uids(s) == s.scopes \cup {s.entries[j].uid : j \in 1..Len(s.entries)}
Same(s, obs) == Len(obs) >= Len(s.entries) /\ \A j \in 1..Len(s.entries) : obs[j] = s.entries[j]
Settle(s, ev) == IF ~ev.ok THEN Bad("a call raised", ev.exc)
                 ELSE IF ~Same(s, ev.obs) \/ Len(ev.obs) # Len(s.entries)
                 THEN Bad("an entry created earlier changed", "")
                 ELSE Good(s)

ExplainNew(s, ev) ==
    LET a == s.agents[ev.i]
        u == Uid(a, ev.uid)
        t == Stamp(a, ev.stamp, s.local)
        e == ev.obs[Len(ev.obs)]
    IN  IF ~ev.ok THEN Bad("creating an entry raised", ev.exc)
        ELSE IF ~Same(s, ev.obs) THEN Bad("an entry created earlier changed", "")
        ELSE IF Len(ev.obs) # Len(s.entries) + 1 THEN Bad("number of entries", "")
        ELSE IF u.how # "fresh" /\ e.uid # u.v THEN Bad("the uid is not the one in force", <<u, e.uid>>)
        ELSE IF u.how = "fresh" /\ (e.uid \in Uids(s) \/ e.uid = "")
             THEN Bad("an entry outside any scope did not get a fresh uid", e.uid)
        ELSE IF ~e.utc THEN Bad("a time stamp is not in UTC", e)
        ELSE IF t.how # "now" /\ e.stamp # t.v THEN Bad("the time stamp is not the one in force", <<t, e.stamp>>)
        ELSE IF t.how = "now" /\ (TLt(e.stamp, ev.lo) \/ TLt(ev.hi, e.stamp))
             THEN Bad("the time stamp is not the current time", <<ev.lo, e.stamp, ev.hi>>)
        ELSE Good([s EXCEPT !.entries = Append(@, e)])

MyExplain(s, ev) ==
    CASE ev.op = "enter" -> Settle([s EXCEPT !.agents = Enter(@, ev.i, ev.scope),
                                             !.scopes = @ \cup {ev.scope.uid}], ev)
      [] ev.op = "leave" -> Settle([s EXCEPT !.agents = Leave(@, ev.i, ev.n)], ev)
      [] ev.op = "spawn" -> Settle([s EXCEPT !.agents = Spawn(@, ev.i, ev.kind)], ev)
      [] ev.op = "new" -> ExplainNew(s, ev)
         \* many entries, created outside any scope by several processes and threads
      [] ev.op = "crowd" ->
            LET us == {ev.uids[j] : j \in DOMAIN ev.uids}
            IN  IF Cardinality(us) < Len(ev.uids)
                THEN Bad("entries outside any scope share a uid", Len(ev.uids) - Cardinality(us))
                ELSE Good(s)
=============================================================================
