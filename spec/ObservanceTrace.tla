-------------------------- MODULE ObservanceTrace ---------------------------
(***************************************************************************)
(* Recorded sessions over several timezones.  The state is the sequence of *)
(* definitions loaded so far; it never changes by asking.                  *)
(***************************************************************************)
EXTENDS Observances, TraceRun

MyStart(s) == <<>>

Broken(ev) == ~ev.ok /\ ev.exc \in {"Hang", "RecursionError"}

ExplainLoad(s, ev) ==
    LET zs == ZonesIn(ParseText(ev.text).v, 1)
        d == IF zs = <<>> THEN Failure ELSE DefOf(zs[1])
    IN  IF ~d.ok THEN Bad("the generator made no definition", ev.text)
        ELSE IF ~ev.ok THEN Bad("a valid timezone definition was rejected", ev.exc)
        ELSE Good(Append(s, TLCEval(d.v)))

ExplainWrite(s, ev) ==
    LET p == ParseText(ev.text)
        zs == IF p.ok THEN ZonesIn(p.v, 1) ELSE <<>>
        d == IF zs = <<>> THEN Failure ELSE DefOf(zs[1])
    IN  IF ~ev.ok THEN Bad("a timezone could not be written", ev.exc)
        ELSE IF Len(zs) # 1 \/ ~d.ok THEN Bad("what is written is no timezone definition", ev.text)
        ELSE IF d.v.id # s[ev.z].id THEN Bad("the timezone is written with another id", s[ev.z].id)
        ELSE IF d.v.obs # s[ev.z].obs THEN Bad("another definition is written", s[ev.z])
        ELSE Good(s)

ExplainAsk(s, ev) ==
    LET as == Answers(s[ev.z], ev.t, ev.f)
    IN  IF ~ev.ok THEN Bad("asking for the offset raised", ev.exc)
        ELSE IF [off |-> ev.off, dst |-> ev.dst, name |-> ev.name] \notin as
        THEN Bad("not the offset, DST amount or name of the observance in force", as)
        ELSE Good(s)

ExplainToUtc(s, ev) ==
    LET us == {Plus(ev.t, -a.off) : a \in Answers(s[ev.z], ev.t, ev.f)}
    IN  IF ~ev.ok THEN Bad("converting to UTC raised", ev.exc)
        ELSE IF ev.u \notin us THEN Bad("a local time is converted to another instant", us)
        ELSE Good(s)

ExplainLocal(s, ev) ==
    LET d == s[ev.z]
        l == Local(d, ev.u)
    IN  IF ~Consistent(d, ev.u) THEN Good(s)
        ELSE IF ~ev.ok THEN Bad("converting from UTC raised", ev.exc)
        ELSE IF ev.t # l.t \/ (ev.f # l.f /\ Answers(d, l.t, 0) # Answers(d, l.t, 1))
        THEN Bad("an instant is converted to another local time", l)
        ELSE Good(s)

MyExplain(s, ev) ==
    IF Broken(ev) THEN Bad("the call did not finish", ev.exc)
    ELSE CASE ev.op = "load"  -> ExplainLoad(s, ev)
           [] ev.op = "copy"  -> IF ev.ok THEN Good(Append(s, s[ev.z]))
                                 ELSE Bad("a timezone could not be cloned", ev.exc)
           [] ev.op = "write" -> ExplainWrite(s, ev)
           [] ev.op = "ask"   -> ExplainAsk(s, ev)
           [] ev.op = "toutc" -> ExplainToUtc(s, ev)
           [] ev.op = "local" -> ExplainLocal(s, ev)
=============================================================================
