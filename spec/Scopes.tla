------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* Deterministic-event-data scopes in several execution contexts (C17).    *)
(* An agent is a thread, an asyncio task or a copied context:              *)
(*   [kind, inh |-> <<scope>> or <<>>, own |-> <<scope, ...>>]             *)
(* inh is what was in force where and when the agent came to be (nothing   *)
(* for a thread), own the scopes it has opened and not left.               *)
(* A scope is [uid |-> string, stamp |-> date-time].                       *)
(* An entry is [uid, stamp]: how they were obtained,                       *)
(*   "given"/"scope" with the value, or "fresh"/"now".                     *)
(***************************************************************************)
EXTENDS Time, FiniteSets

InForce(a) == IF a.own # <<>> THEN <<a.own[Len(a.own)]>> ELSE a.inh
Spawn(agents, i, kind) ==
    Append(agents, [kind |-> kind, inh |-> IF kind = "thread" THEN <<>> ELSE InForce(agents[i]),
                    own |-> <<>>])
Enter(agents, i, s) == [agents EXCEPT ![i].own = Append(@, s)]
(* leaving n scopes, whether normally or by an exception passing through *)
Leave(agents, i, n) == [agents EXCEPT ![i].own = SubSeq(@, 1, Len(@) - n)]

From(how, v) == [how |-> how, v |-> v]
Uid(a, given) == IF given # <<>> THEN From("given", given[1])
                 ELSE IF InForce(a) # <<>> THEN From("scope", InForce(a)[1].uid)
                 ELSE From("fresh", "")
Stamp(a, given, local) ==
    IF given # <<>> THEN From("given", InstantIn(given[1], local))
    ELSE IF InForce(a) # <<>> THEN From("scope", InstantIn(InForce(a)[1].stamp, local))
    ELSE From("now", Zero)
=============================================================================
