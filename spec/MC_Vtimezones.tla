--------------------------- MODULE MC_Vtimezones ----------------------------
(***************************************************************************)
(* VTIMEZONEs made of a base (which may be left out line by line) and up   *)
(* to Picks items of a catalogue, put into the component or its            *)
(* observance.  Every one is reported as a text with its verdict.          *)
(***************************************************************************)
EXTENDS Vtimezones, Json, IOUtils

CONSTANTS Picks
Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
(* catalogues are texts of items *)
Cat(k) == TLCEval([i \in 1..Len(Header[k]) |-> ParseText(Header[k][i]).v])
CatTz == Cat("tz")
CatObs == Cat("obs")
BaseTz == Cat("basetz")
BaseObs == Cat("baseobs")

VARIABLES drop, pick       \* base lines left out; picked [where, i]
vars == <<drop, pick>>

Init == drop = {} /\ pick = <<>>
Pick == /\ Len(pick) + Cardinality(drop) < Picks
        /\ \/ \E i \in 1..Len(CatTz) : pick' = Append(pick, [w |-> "tz", i |-> i])
           \/ \E i \in 1..Len(CatObs) : pick' = Append(pick, [w |-> "obs", i |-> i])
        /\ UNCHANGED drop
Drop == /\ Len(pick) + Cardinality(drop) < Picks /\ pick = <<>>
        /\ \E d \in ({"tz"} \X (1..Len(BaseTz))) \cup ({"obs"} \X (1..Len(BaseObs))) :
             d \notin drop /\ drop' = drop \cup {d}
        /\ UNCHANGED pick
Next == Pick \/ Drop
Spec == Init /\ [][Next]_vars

Flat(s) == Concat(s)
Kept_(w, base) == Flat([i \in 1..Len(base) |-> IF <<w, i>> \in drop THEN <<>> ELSE base[i]])
Picked(w, cat) == LET ps == SelectSeq(pick, LAMBDA p : p.w = w)
                  IN  Flat([i \in 1..Len(ps) |-> cat[ps[i].i]])
Obs == [t |-> "comp", name |-> WSTANDARD, items |-> Kept_("obs", BaseObs) \o Picked("obs", CatObs)]
Tz == [t |-> "comp", name |-> WVTIMEZONE,
       items |-> Kept_("tz", BaseTz) \o <<Obs>> \o Picked("tz", CatTz)]

D == TzDef(Tz)
(* what is written means the same, and is written the same again *)
RoundTrip == D.ok => LET e == TzItem(D.v)
                     IN  TzDef(e) = D /\ TzItem(TzDef(e).v) = e
(* required lines, and single ones at most once *)
Required == D.ok => /\ Count(Tz.items, WTZID) = 1
                    /\ \A n \in {WDTSTART, WTZOFFSETFROM, WTZOFFSETTO} : Count(Obs.items, n) = 1
                    /\ \A n \in {WTZNAME, WCOMMENT} : Count(Obs.items, n) <= 1
(* the observances with every unknown item are still there *)
KeepsItems == D.ok => /\ Len(D.v.obs) = Len(SelectSeq(Tz.items, IsObs))
                      /\ Len(D.v.x) + Len(D.v.obs) + Len(D.v.url) + Len(D.v.mod) + 1 = Len(Tz.items)
(* the onsets are those Observances derives from the text *)
SameMeaning == D.ok => LET d == DefOf(Tz).v
                       IN  \A i \in 1..Len(d.obs) : /\ d.obs[i].rdates = D.v.obs[i].dates
                                                    /\ d.obs[i].ex = D.v.obs[i].ex
                                                    /\ Len(d.obs[i].rules) = Len(D.v.obs[i].rules)
                                                    /\ d.obs[i].from = D.v.obs[i].from[1].v
Report == PrintT("VPJ" \o ToJson([drop |-> SetToSeq(drop), pick |-> pick, ok |-> D.ok]))
=============================================================================
