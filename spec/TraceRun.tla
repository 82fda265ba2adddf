------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Generic trace validation.  A recorded session is accepted iff every one *)
(* of its steps is explained by the specification from the state reached   *)
(* by the steps before it.  Explain(st, ev) yields the failing clause (""  *)
(* if none) and the next specification state.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_), Explain(_, _)

Log == ndJsonDeserialize(IOEnv.VP_TRACE)
Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]

VARIABLES sid, pos, st

Good(s) == [c |-> "", s |-> s, x |-> ""]
Bad(c, x) == [c |-> c, s |-> <<>>, x |-> ToString(x)]

TraceInit ==
    /\ sid \in 1..Len(Log)
    /\ pos = 0
    /\ st = Start(Log[sid])

TraceNext ==
    /\ pos < Len(Log[sid].steps)
    /\ LET r == Explain(st, Log[sid].steps[pos + 1])
       IN  IF r.c = ""
           THEN /\ pos' = pos + 1
                /\ st' = r.s
           ELSE /\ PrintT(<<"VPVIOL", sid, pos + 1, r.c, r.x>>)
                /\ pos' = Len(Log[sid].steps)
                /\ st' = "rejected"
    /\ UNCHANGED sid

TraceSpec == TraceInit /\ [][TraceNext]_<<sid, pos, st>>
=============================================================================
