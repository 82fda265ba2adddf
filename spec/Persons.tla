------------------------------- MODULE Persons ------------------------------
(***************************************************************************)
(* Attendees and organizers as parameter maps with typed properties (C21). *)
(* A person is [who |-> "attendee" | "organizer", e |-> email,             *)
(*              x |-> [parameter |-> <<string, ...>>]].                    *)
(* Property values are strings: TRUE/FALSE for booleans, the written form  *)
(* for URIs.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
NoParams == [j \in {} |-> <<>>]

Prop(n, param, ty, multi, default) ==
    [n |-> n, param |-> param, ty |-> ty, multi |-> multi, default |-> default]
Common == << Prop("sent_by", "SENT-BY", "uri", FALSE, <<>>),
             Prop("common_name", "CN", "text", FALSE, <<>>),
             Prop("directory", "DIR", "uri", FALSE, <<>>) >>
Props(who) ==
    IF who = "organizer" THEN Common
    ELSE Common \o <<
        Prop("user_type", "CUTYPE", "text", FALSE, <<"INDIVIDUAL">>),
        Prop("member", "MEMBER", "uri", TRUE, <<>>),
        Prop("role", "ROLE", "text", FALSE, <<"REQ-PARTICIPANT">>),
        Prop("status", "PARTSTAT", "text", FALSE, <<"NEEDS-ACTION">>),
        Prop("rsvp", "RSVP", "bool", FALSE, <<"FALSE">>),
        Prop("delegated_to", "DELEGATED-TO", "uri", TRUE, <<>>),
        Prop("delegated_from", "DELEGATED-FROM", "uri", TRUE, <<>>) >>
Named(who, n) == LET ps == Props(who) IN ps[CHOOSE i \in 1..Len(ps) : ps[i].n = n]

(* reading: k "ok" with the values, "none" (nothing there), the error, or  *)
(* "free" for stored texts that are no value of the type                   *)
Got(k, v) == [k |-> k, v |-> v]
BoolText(s) == IF s \in {"TRUE", "FALSE"} THEN s
               ELSE IF s \in {"true", "True"} THEN "TRUE"
               ELSE IF s \in {"false", "False"} THEN "FALSE" ELSE "?"
Get(p, d) ==
    LET vs == IF d.param \in DOMAIN p.x THEN p.x[d.param] ELSE <<>>
        ds == IF d.default = <<>> THEN Got("none", <<>>) ELSE Got("ok", d.default)
    IN  IF d.multi THEN IF d.param \in DOMAIN p.x THEN Got("ok", vs) ELSE ds
        ELSE IF vs = <<>> THEN ds
        ELSE IF Len(vs) > 1 THEN Got("ValueError", <<>>)
        ELSE IF d.ty = "bool" /\ BoolText(vs[1]) = "?" THEN Got("free", <<>>)
        ELSE Got("ok", IF d.ty = "bool" THEN <<BoolText(vs[1])>> ELSE vs)
AllReads(p) == [i \in 1..Len(Props(p.who)) |-> Get(p, Props(p.who)[i])]

Do(p, op) ==
    CASE op.k = "set" -> [p EXCEPT !.x = Put(@, Named(p.who, op.n).param, op.vals)]
      [] op.k = "del" -> [p EXCEPT !.x = Drop(@, Named(p.who, op.n).param)]
      (* parameters filled in directly *)
      [] op.k = "fill" -> [p EXCEPT !.x = Put(@, op.n, op.vals)]
      [] op.k = "unfill" -> [p EXCEPT !.x = Drop(@, op.n)]
      [] op.k = "email" -> [p EXCEPT !.e = op.vals[1]]
      (* changing the list a property returned *)
      [] op.k = "touch" -> p

(* what is written, and so what is read back: parameters without value are *)
(* not written                                                             *)
Written(p) == [j \in {n \in DOMAIN p.x : p.x[n] # <<>>} |-> p.x[j]]
ReadBack(p) == [p EXCEPT !.x = Written(p)]
=============================================================================
