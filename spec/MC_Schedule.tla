---------------------------- MODULE MC_Schedule -----------------------------
(* All pairs of spans over a small grid: comparison and predicate laws.    *)
EXTENDS Schedule, Json, IOUtils

CONSTANTS Kinds, Days, TimesOfDay, ZoneIds, Durs, Local

MCZones == ndJsonDeserialize(IOEnv.VP_HEADER)[1].zones
MCDurs == {<<0, 0>>, <<0, 43200>>, <<1, 0>>}

VARIABLES x, y, done

DTs == {DT(d, s, z) : d \in Days, s \in TimesOfDay, z \in ZoneIds}
Opt(S) == {<<>>} \cup {<<t>> : t \in S}

Spans ==
    {s \in {Span(k, b, e, <<>>, FALSE) : k \in Kinds, b \in Opt(DTs), e \in Opt(DTs)}
           \cup {Span(k, b, <<>>, d, FALSE) : k \in Kinds, b \in Opt(DTs), d \in Opt(Durs)}
        : Valid(s)}
    \cup {Span(k, <<DT(d, 0, "")>>, <<>>, <<>>, TRUE) : k \in Kinds, d \in Days}

Sum(s) == <<>>
Ent(s) == [ts |-> s, sum |-> Sum(s)]

(* x is fixed, then compared with every y *)
Init == x \in Spans /\ y = x /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ y' \in Spans
        /\ UNCHANGED x
        /\ PrintT("VPJ" \o ToJson(
             [x |-> x, y |-> y',
              cmp |-> Cmp(Ent(x), Ent(y'), Local),
              sw |-> StartsWithin(x, y', Local), ew |-> EndsWithin(x, y', Local),
              is |-> Intersects(x, y', Local), ic |-> Includes(x, y', Local),
              ii |-> IncludedIn(x, y', Local)]))
Spec == Init /\ [][Next]_<<x, y, done>>

Pair == done

Trichotomy == Pair =>
    LET c == Cmp(Ent(x), Ent(y), Local) d == Cmp(Ent(y), Ent(x), Local)
    IN  /\ c[1] = d[2] /\ c[2] = d[1] /\ c[3] = d[4] /\ c[4] = d[3]
        /\ ~(c[1] /\ c[2]) /\ c[3] = ~c[2] /\ c[4] = ~c[1]
        /\ c[3] \/ c[4]
Transitive == Pair =>
    \A z \in {s \in Spans : s.k = x.k} :
        (Cmp(Ent(x), Ent(y), Local)[3] /\ Cmp(Ent(y), Ent(z), Local)[3])
            => Cmp(Ent(x), Ent(z), Local)[3]
IntersectsSymmetric == Pair => Intersects(x, y, Local) = Intersects(y, x, Local)
IncludesIntersects == Pair =>
    (Includes(x, y, Local) = "yes" => Intersects(x, y, Local) = "yes"
                                      /\ StartsWithin(y, x, Local) = "yes"
                                      /\ EndsWithin(y, x, Local) = "yes")
EquivalentForms == Pair =>
    LET r == ConvertEnd(x, IF Rep(x) = "end" THEN "duration" ELSE "end")
    IN  (r.ok /\ (Some(x.b) => (\A o \in {x.e} : Some(o) => The(o).z = The(x.b).z)))
        => \A n \in PredicateNames :
            /\ Predicate(n, x, y, Local) = Predicate(n, r.ts, y, Local)
            /\ Predicate(n, y, x, Local) = Predicate(n, y, r.ts, Local)
=============================================================================
