--------------------------- MODULE MC_Components ----------------------------
(***************************************************************************)
(* Bounded exploration of Components.  The header supplies small domains:  *)
(*   dom   class -> attribute -> list of value lists (the first: default)  *)
(*   base  class -> lines every text of that class has                     *)
(*   cat   class -> lines and components to choose from                    *)
(* Mode "values": every component with at most two attributes away from    *)
(* their default.  Mode "texts": every component text with up to Width     *)
(* chosen items.                                                           *)
(***************************************************************************)
EXTENDS Components, Json, IOUtils

CONSTANTS Mode, Width

Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
MCZones == Header.zones
Dom == Header.dom
Base == Header.base
Cat == Header.cat
Classes == DOMAIN Dom

VARIABLES cls, pick
vars == <<cls, pick>>

NAttr(c) == Len(Schema(c))
AttrName(c, i) == Schema(c)[i].n
Choices(c, i) == Len(Dom[c][AttrName(c, i)])

Init == cls \in Classes /\ pick = <<>>
NextValues == /\ Len(pick) < Width
              /\ \E i \in 1..NAttr(cls), v \in 2..12 :
                   /\ v <= Choices(cls, i)
                   /\ pick # <<>> => i > pick[Len(pick)][1]
                   /\ pick' = Append(pick, <<i, v>>)
NextTexts == /\ Len(pick) < Width
             /\ \E i \in 1..Len(Cat[cls]) : pick' = Append(pick, i)
Next == UNCHANGED cls /\ (IF Mode = "values" THEN NextValues ELSE NextTexts)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- values *)
Chosen(i) == LET h == SelectSeq(pick, LAMBDA q : q[1] = i) IN IF h = <<>> THEN 1 ELSE h[1][2]
Comp == LET sch == Schema(cls)
            idx(n) == CHOOSE i \in 1..Len(sch) : sch[i].n = n
        IN  [cls |-> cls, a |-> [n \in {sch[i].n : i \in 1..Len(sch)} |-> Dom[cls][n][Chosen(idx(n))]],
             x |-> <<>>, p |-> <<>>]

Local == "UTC"
ReportValues == PrintT("VPJ" \o ToJson([c |-> Comp, o |-> Export(Comp).items]))
WritesAndReads ==
    LET c == Comp
        e == Export(c)
        r == Import(cls, e.items, Local)
    IN  e.k = "ok" /\ r.k = "ok" /\ SameComp(c, r.c) /\ SameTree(cls, e.items, Export(r.c).items)
SetAttributesOnce ==
    LET c == Comp
        e == Export(c).items
    IN  \A i \in 1..NAttr(cls) :
            LET d == Schema(cls)[i]
            IN  d.n # "timespan" => Len(LinesOf(e, d.prop)) = Len(c.a[d.n])

(* -------------------------------------------------------------- texts *)
Items == Base[cls] \o [i \in 1..Len(pick) |-> Cat[cls][pick[i]]]
Read0 == Import(cls, Items, Local)
ReportTexts ==
    LET r == Read0
    IN  PrintT("VPJ" \o ToJson([cls |-> cls, items |-> Items, k |-> r.k,
                               c |-> IF r.k = "ok" THEN r.c ELSE <<>>,
                               o |-> IF r.k = "ok" THEN Export(r.c).items ELSE <<>>]))
(* nothing unknown gets lost, moved or changed *)
KeepsUnknown ==
    Read0.k = "ok" =>
        LET xs == SelectSeq(Items, LAMBDA i : ~(i.n \in KnownProps(cls)))
            ys == SelectSeq(Export(Read0.c).items, LAMBDA i : ~(i.n \in KnownProps(cls)))
        IN  xs = ys
(* every known line keeps its parameters, and lines stay together *)
KeepsParams ==
    Read0.k = "ok" =>
        LET out == Export(Read0.c)
            known == KnownProps(cls) \ {"VTIMEZONE"}
            clean(l) == {q \in Range(l.ps) : q.n \notin {"VALUE", "TZID"}}
        IN  out.k = "ok" /\
            \A n \in known :
               LET a == LinesOf(Items, n)
                   b == LinesOf(out.items, n)
               IN  a # <<>> => Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                        a[i].t = "line" => clean(a[i]) = clean(b[i])
Stable ==
    Read0.k = "ok" =>
        LET e == Export(Read0.c)
            r == Import(cls, e.items, Local)
        IN  r.k = "ok" /\ SameComp(Read0.c, r.c) /\ SameTree(cls, e.items, Export(r.c).items)
SinglesNotDropped ==
    (\E i \in 1..NAttr(cls) :
        LET d == Schema(cls)[i]
        IN  ~d.multi /\ d.n # "timespan" /\ Len(LinesOf(Items, d.prop)) > 1) => Read0.k # "ok"
=============================================================================
