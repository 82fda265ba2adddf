----------------------------- MODULE MC_Scopes ------------------------------
(* All schedules of at most Depth steps over at most MaxAgents agents; at  *)
(* the end every agent creates an entry.                                   *)
EXTENDS Scopes, TLC, Json

CONSTANTS Depth, MaxAgents

MCZones == [UTC |-> <<0>>]
VARIABLES agents, hist
vars == <<agents, hist>>

(* the k-th step opens the scope "s<k>" *)
Scope(k) == [uid |-> "s" \o ToString(k), stamp |-> DT(730000 + k, k, "UTC")]
Init == agents = <<[kind |-> "root", inh |-> <<>>, own |-> <<>>]>> /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E i \in 1..Len(agents) :
        \/ /\ agents' = Enter(agents, i, Scope(Len(hist) + 1))
           /\ hist' = Append(hist, [k |-> "enter", i |-> i, n |-> Len(hist) + 1])
        \/ \E n \in 1..Len(agents[i].own), exc \in BOOLEAN :
           /\ exc \/ n = 1
           /\ agents' = Leave(agents, i, n)
           /\ hist' = Append(hist, [k |-> IF exc THEN "raise" ELSE "leave", i |-> i, n |-> n])
        \/ \E kind \in {"thread", "task", "copy"} :
           /\ Len(agents) < MaxAgents
           /\ agents' = Spawn(agents, i, kind)
           /\ hist' = Append(hist, [k |-> kind, i |-> i, n |-> 0])
Spec == Init /\ [][Next]_vars

Report == PrintT("VPJ" \o ToJson([hist |-> hist,
                     uids |-> [i \in 1..Len(agents) |-> Uid(agents[i], <<>>)],
                     stamps |-> [i \in 1..Len(agents) |-> Stamp(agents[i], <<>>, "UTC")]]))

(* what one agent does never changes what is in force in another *)
Isolated == [][LET i == hist'[Len(hist')].i
               IN  \A j \in 1..Len(agents) : j # i => InForce(agents'[j]) = InForce(agents[j])]_vars
(* after leaving, what was in force before the scope was opened is again *)
Restored == [][\A i \in 1..Len(agents) :
                 LET n == Len(agents[i].own)
                 IN  Len(agents'[i].own) < n =>
                        InForce(agents'[i]) = IF Len(agents'[i].own) = 0 THEN agents[i].inh
                                              ELSE <<agents[i].own[Len(agents'[i].own)]>>]_vars
=============================================================================
