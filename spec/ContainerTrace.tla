--------------------------- MODULE ContainerTrace ---------------------------
(* Recorded histories of container operations (C10): every record carries  *)
(* the outcome and the complete heap observed after it.                    *)
EXTENDS Containers, TraceRun

MyStart(s) == s.heap

MyExplain(h, ev) ==
    LET w == Op(h, ev)
    IN  IF w.ok /\ ~ev.ok THEN Bad(ev.op \o " raised", ev.exc)
        ELSE IF ~w.ok /\ ev.ok THEN Bad(ev.op \o " did not raise", w.k)
        ELSE IF ~w.ok /\ ~("any" \in w.k \/ ev.exc \in w.k)
             THEN Bad(ev.op \o " raised the wrong kind of error", ev.exc)
        ELSE IF ~w.ok /\ ev.heap # h THEN Bad("failed " \o ev.op \o " changed something", h)
        ELSE IF w.ok /\ ev.res # w.r THEN Bad("wrong result of " \o ev.op, w.r)
        ELSE IF ev.heap # w.h THEN Bad("wrong state after " \o ev.op, w.h)
        ELSE Good(ev.heap)
=============================================================================
