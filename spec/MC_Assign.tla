----------------------------- MODULE MC_Assign ------------------------------
(* Every attribute of every class, given every raw value of the header's   *)
(* list after at most one other of its short list.                         *)
EXTENDS Assign, Json, IOUtils

Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
MCZones == Header.zones
Classes == {"event", "todo", "calendar", "audio", "custom", "display", "email", "none"}
Slots == UNION {{<<c, Schema(c)[i].n>> : i \in 1..Len(Schema(c))} : c \in Classes}
         \ {<<"custom", "action">>}
Local == Header.local

VARIABLES slot, given     \* numbers of the raw values assigned so far
vars == <<slot, given>>
Init == slot \in Slots /\ given = <<>>
Next == /\ UNCHANGED slot
        /\ \/ /\ given = <<>>
              /\ \E i \in 1..Len(Header.raws) : given' = <<i>>
           \/ /\ Len(given) = 1 /\ given[1] \in Range(Header.short)
              /\ \E i \in Range(Header.short) : given' = Append(given, i)
Spec == Init /\ [][Next]_vars

Outcomes == [k \in 1..Len(given) |-> Normalise(slot[1], slot[2], Header.raws[given[k]], Local)]
Report == given # <<>> =>
    PrintT("VPJ" \o ToJson([cls |-> slot[1], n |-> slot[2], given |-> given,
                           out |-> [i \in 1..Len(given) |-> Outcomes[i]]]))

(* what is stored is accepted again and stays the same *)
AsRaw(cls, v) == CASE Is(v, "geo") -> [geo |-> [form |-> "geo", v |-> v.geo]]
                   [] Is(v, "person") -> [person |-> [who |-> "organizer", e |-> v.person.e, x |-> v.person.x]]
                   [] OTHER -> v
StoredIsStable ==
    \A k \in 1..Len(given) :
        LET o == Outcomes[k]
        IN  (o.k = "ok" /\ ~IsMulti(slot[1], slot[2]) /\ o.v # <<>>) =>
                Normalise(slot[1], slot[2], AsRaw(slot[1], o.v[1]), Local) = o
TypesHold ==       \* only values of the declared types are ever stored
    \A k \in 1..Len(given) :
        LET o == Outcomes[k]
            ty == Types(slot[1], slot[2])
        IN  (o.k = "ok" /\ ~IsMulti(slot[1], slot[2])) =>
                \A i \in 1..Len(o.v) : \E j \in 1..Len(ty) : Is(o.v[i], ty[j])
StampsAreUTC ==
    slot[2] \in {"created", "last_modified", "dtstamp"} =>
        \A k \in 1..Len(given) : Outcomes[k].k = "ok" =>
            \A i \in 1..Len(Outcomes[k].v) : Outcomes[k].v[i].dt.z = "UTC"
=============================================================================
