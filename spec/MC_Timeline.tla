---------------------------- MODULE MC_Timeline -----------------------------
(***************************************************************************)
(* All small calendars (sequences of spans, with repetition) and, for each,*)
(* the answers to a fixed set of queries.                                  *)
(***************************************************************************)
EXTENDS Schedule, Json, IOUtils, SequencesExt

CONSTANTS Days, TimesOfDay, ZoneIds, Durs, Local, MaxEvents

MCZones == ndJsonDeserialize(IOEnv.VP_HEADER)[1].zones
MCDurs == {<<0, 43200>>, <<1, 0>>}

VARIABLE cal

DTs == {DT(d, s, z) : d \in Days, s \in TimesOfDay, z \in ZoneIds}

Spans == {Empty("event")}
    \cup {Span("event", <<b>>, <<>>, <<>>, FALSE) : b \in DTs}
    \cup {Span("event", <<b>>, <<>>, <<d>>, FALSE) : b \in DTs, d \in Durs}
    \cup {Span("event", <<DT(d, 0, "")>>, <<>>, <<>>, TRUE) : d \in Days}

Instants == SetToSeq(DTs)
QSpans == SetToSeq({s \in {Span("span", <<b>>, <<e>>, <<>>, FALSE) : b \in DTs, e \in DTs} : Valid(s)})

Queries == <<[op |-> "all"]>>
    \o [i \in 1..Len(Instants) |-> [op |-> "at", t |-> Instants[i]]]
    \o [i \in 1..Len(Instants) |-> [op |-> "start_after", t |-> Instants[i]]]
    \o [i \in 1..Len(QSpans) |-> [op |-> "included", span |-> QSpans[i]]]
    \o [i \in 1..Len(QSpans) |-> [op |-> "overlapping", span |-> QSpans[i]]]

Hits(q) == SelectSeq([i \in 1..Len(cal) |-> i],
                     LAMBDA i : Some(cal[i].b) /\ Selected(q, cal[i], Local))

Init == cal = <<>>
Next == /\ Len(cal) < MaxEvents
        /\ \E s \in Spans : cal' = Append(cal, s)
Spec == Init /\ [][Next]_cal

(* printed once per calendar *)
Report ==
    PrintT("VPJ" \o ToJson(
        [cal |-> cal, q |-> [i \in 1..Len(Queries) |-> Queries[i]],
         hits |-> [i \in 1..Len(Queries) |-> Hits(Queries[i])],
         keys |-> [i \in 1..Len(cal) |-> SpanKey(cal[i], Local)]]))

Subset(p, q) == \A i \in 1..Len(p) : Count(q, p[i]) > 0

AtImpliesOverlap ==
    \A i \in 1..Len(Instants) :
        LET t == Instants[i]
        IN  Subset(Hits([op |-> "at", t |-> t]),
                   Hits([op |-> "overlapping",
                         span |-> Span("span", <<t>>, <<DTPlus(t, <<0, 1>>)>>, <<>>, FALSE)]))
IncludedImpliesOverlap ==
    \A i \in 1..Len(QSpans) :
        Subset(Hits([op |-> "included", span |-> QSpans[i]]),
               Hits([op |-> "overlapping", span |-> QSpans[i]]))
=============================================================================
