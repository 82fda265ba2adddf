----------------------------- MODULE MC_Persons -----------------------------
(* All histories of at most Depth operations on the header's persons.      *)
EXTENDS Persons, Json, IOUtils

CONSTANTS Depth

Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
VARIABLES who, pre, hist, p
vars == <<who, pre, hist, p>>

Ops == SelectSeq(Header.ops, LAMBDA o : ~("n" \in DOMAIN o /\ o.k \in {"set", "del", "touch"})
                                        \/ \E i \in 1..Len(Props(who)) : Props(who)[i].n = o.n)
Init == /\ who \in {"attendee", "organizer"}
        /\ pre \in 1..Len(Header.pre)
        /\ hist = <<>>
        /\ p = [who |-> who, e |-> "mailto:a@b", x |-> Header.pre[pre]]
Next == /\ Len(hist) < Depth
        /\ UNCHANGED <<who, pre>>
        /\ \E i \in 1..Len(Ops) : hist' = Append(hist, Ops[i]) /\ p' = Do(p, Ops[i])
Spec == Init /\ [][Next]_vars

Report == PrintT("VPJ" \o ToJson([who |-> who, pre |-> pre, hist |-> hist, p |-> p,
                                 reads |-> AllReads(p), back |-> ReadBack(p),
                                 again |-> AllReads(ReadBack(p))]))

(* a set value is read back, other properties keep theirs *)
Mirrors ==
    [][LET op == hist'[Len(hist')]
           ps == Props(who)
       IN  op.k \in {"set", "del"} =>
               \A i \in 1..Len(ps) :
                   IF ps[i].n # op.n THEN Get(p', ps[i]) = Get(p, ps[i])
                   ELSE IF op.k = "set" THEN Get(p', ps[i]) = Got("ok", op.vals)
                   ELSE Get(p', ps[i]).v = ps[i].default]_vars
(* writing and reading keeps every property, empty lists aside *)
Survives == \A i \in 1..Len(Props(who)) : Get(ReadBack(p), Props(who)[i]).v = Get(p, Props(who)[i]).v
=============================================================================
