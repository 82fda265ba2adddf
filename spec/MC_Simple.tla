----------------------------- MODULE MC_Simple ------------------------------
(* All short texts, and all texts few edits away from given words.         *)
EXTENDS Simple, Json, IOUtils

Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
Kinds == {"int", "float", "geo", "bool", "bytes", "uri"}
Budget == Header.budget
Range(s) == {s[i] : i \in 1..Len(s)}

VARIABLES kind, t, left
vars == <<kind, t, left>>
View == <<kind, t>>

Init == /\ kind \in Kinds
        /\ \/ t = <<>> /\ left = Budget[kind]
           \/ t \in Range(Header.words[kind]) /\ left = 1
Insert(i, c) == Until(t, i) \o <<c>> \o From(t, i)
Next ==
    /\ left > 0 /\ left' = left - 1 /\ UNCHANGED kind
    /\ \E c \in Range(Header.alphabet[kind]) :
           IF left = 1 /\ t \in Range(Header.words[kind])
           THEN \E i \in 1..(Len(t) + 1) :
                    \/ t' = Insert(i, c)
                    \/ i <= Len(t) /\ t' = [t EXCEPT ![i] = c]
                    \/ i <= Len(t) /\ t' = Until(t, i) \o From(t, i + 1)
           ELSE t' = Append(t, c)
Spec == Init /\ [][Next]_vars

R == Read(kind, t)
Report == PrintT("VPJ" \o ToJson([kind |-> kind, t |-> t, r |-> R]))
(* what is written is strict and means the value it was written for *)
RoundTrip ==
    R.k \in {"ok", "may"} =>
        LET w == Write(kind, R.v)
        IN  StrictForm(kind, w) /\ Read(kind, w) = Ok(R.v)
(* what is strict is read *)
StrictIsRead == (kind # "uri" /\ StrictForm(kind, t)) => R.k \in {"ok", "any"}
(* a coordinate stands for itself *)
SelfNear == (R.k \in {"ok", "may"} /\ (kind = "geo" => R.v.geo[1].e >= -6 /\ R.v.geo[2].e >= -6))
            => Stands(kind, R.v, R.v)
=============================================================================
