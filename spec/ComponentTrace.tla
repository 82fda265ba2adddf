--------------------------- MODULE ComponentTrace ---------------------------
(* Recorded writing, reading and editing of components (C13, C14).         *)
EXTENDS Components, TraceRun

TraceZones == Header.zones

MyStart(s) == <<>>

ExplainRoundtrip(s, ev) ==
    LET e == Export(ev.c)
    IN  IF ~ev.made THEN Bad("a valid component could not be built", ev.exc)
        ELSE IF ~SameComp(ev.c, ev.obs)
             THEN Bad("a component does not hold what it was given", Difference(ev.c, ev.obs))
        ELSE IF ~ev.ok THEN Bad("writing a component raised", ev.exc)
        ELSE IF ev.n # 1 THEN Bad("the text does not hold one calendar", ev.n)
        ELSE IF ~SameTree(ev.c.cls, e.items, ev.tree)
             THEN Bad("the written text does not say what the component holds", e.items)
        ELSE IF ~ev.pristine THEN Bad("writing changed the component", "")
        ELSE IF ~ev.back.ok THEN Bad("a written calendar could not be read", ev.back.exc)
        ELSE IF ~SameComp(ev.c, ev.back.c)
             THEN Bad("a component changed by writing and reading", Difference(ev.c, ev.back.c))
        ELSE IF ev.offs[1] # ev.offs[2] THEN Bad("instants changed by writing and reading", ev.offs)
        ELSE IF ~ev.same THEN Bad("writing again gives another text", "")
        ELSE Good(s)

(***************************************************************************)
(* C14.  The state is [c |-> component], or [free |-> TRUE] once nothing   *)
(* is said about it any more.  Every record shows the component (obs) and  *)
(* what it writes (out) afterwards.                                        *)
(***************************************************************************)
Free == [free |-> TRUE]
IsFree(s) == "free" \in DOMAIN s

RECURSIVE Reach(_, _)
Reach(c, path) == IF path = <<>> THEN c ELSE Reach(c.a[path[1].n][path[1].i].comp, Tail(path))
RECURSIVE Replace(_, _, _)
Replace(c, path, new) ==
    IF path = <<>> THEN new
    ELSE [c EXCEPT !.a[path[1].n][path[1].i] = [comp |-> Replace(@.comp, Tail(path), new)]]

Shown(ev, c) ==
    LET e == Export(c)
    IN  IF ~SameComp(c, ev.obs) THEN Bad("the component is not as it should be", Difference(c, ev.obs))
        ELSE IF e.k = "free" THEN Good([c |-> c])
        ELSE IF ~ev.out.ok THEN Bad("writing raised", ev.out.exc)
        ELSE IF ~SameTree(c.cls, e.items, ev.out.res)
             THEN Bad("something got lost, moved or changed between reading and writing", e.items)
        ELSE Good([c |-> c])

ExplainImport(s, ev) ==
    LET r == Import("calendar", ev.items, "UTC")
    IN  CASE r.k = "free" -> Good(Free)
          [] r.k = "bad" -> IF ev.ok THEN Bad("a text that must be rejected was read", "") ELSE Good(Free)
          [] r.k = "ok" -> IF ~ev.ok THEN Bad("a valid text was rejected", ev.exc) ELSE Shown(ev, r.c)

Rebuilt(s, ev, old, new) ==
    IF ~ev.ok THEN Bad("an operation raised", ev.exc) ELSE Shown(ev, Replace(s.c, ev.path, new))

ExplainEdit(s, ev) ==
    LET c == Reach(s.c, ev.path)
    IN  CASE ev.op = "set" ->
              LET vs == [i \in 1..Len(ev.vals) |-> Store(c.cls, ev.n, ev.vals[i], "UTC")]
              IN  Rebuilt(s, ev, c, [c EXCEPT !.a[ev.n] = [i \in 1..Len(vs) |-> vs[i].v]])
          [] ev.op = "add" -> Rebuilt(s, ev, c, [c EXCEPT !.x = Append(@, ev.item)])
          [] ev.op = "drop" -> Rebuilt(s, ev, c,
                [c EXCEPT !.x = SubSeq(@, 1, ev.i - 1) \o SubSeq(@, ev.i + 1, Len(@))])
          [] ev.op = "strip" ->
              LET flag(f) == IF f = <<>> THEN ev.all ELSE f[1]
                  p == flag(ev.props)
                  q == flag(ev.params)
                  m == flag(ev.merging)
              IN  IF ~(p \/ q \/ m)
                  THEN IF ev.ok \/ ev.exc # "ValueError" THEN Bad("stripping nothing did not raise", ev.exc)
                       ELSE Shown(ev, s.c)
                  ELSE Rebuilt(s, ev, c, Strip(c, p, q, m))

MyExplain(s, ev) ==
    CASE ev.op = "roundtrip" -> ExplainRoundtrip(s, ev)
      [] ev.op = "import" -> ExplainImport(s, ev)
      [] OTHER -> IF IsFree(s) THEN Good(s) ELSE ExplainEdit(s, ev)
=============================================================================
