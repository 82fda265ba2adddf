------------------------------ MODULE MC_Files ------------------------------
(***************************************************************************)
(* Texts at most Edits edits away from a valid calendar.  A line is a pair *)
(* <<head, value>> of indices into tables of the header; edits drop, swap, *)
(* repeat or insert lines and exchange heads (name and parameters) and     *)
(* values, rename components or leave only one.                            *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils

CONSTANTS Edits
Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
MCZones == Header.zones
Heads == Header.heads       \* code points
Vals == Header.vals
Bases == Header.bases       \* sequences of <<head, value>>
AnyVals == Header.anyvals   \* indices put anywhere
AnyHeads == Header.anyheads
Inserts == Header.inserts   \* blocks of lines put anywhere

VARIABLES doc, n, base, kind, k
vars == <<doc, n, base, kind, k>>

LineText(l) == Heads[l[1]] \o <<58>> \o Vals[l[2]]
RECURSIVE TextFrom(_, _)
TextFrom(d, i) == IF i > Len(d) THEN <<>> ELSE LineText(d[i]) \o <<13, 10>> \o TextFrom(d, i + 1)
VerdictOf(d) == Verdict(Header.names, TextFrom(d, 1))

Init == /\ base \in 1..Len(Bases) /\ doc = Bases[base] /\ n = 0 /\ kind = "" /\ k = ""
Put(p, x) == SubSeq(doc, 1, p) \o x \o SubSeq(doc, p + 1, Len(doc))
Cut(p) == SubSeq(doc, 1, p - 1) \o SubSeq(doc, p + 1, Len(doc))
Lines1 == 1..Len(doc)
(* a component: from its first line to the END line of that name *)
IsEnd(p, q) == q > p /\ Heads[doc[q][1]] = V!TEND /\ doc[q][2] = doc[p][2]
Begins == {p \in Lines1 : Heads[doc[p][1]] = V!TBEGIN /\ \E q \in Lines1 : IsEnd(p, q)}
EndOf(p) == CHOOSE q \in Lines1 : IsEnd(p, q) /\ \A r \in Lines1 : IsEnd(p, r) => q <= r
Edit == /\ n < Edits /\ n' = n + 1 /\ UNCHANGED base
        /\ \/ \E p \in Lines1 : doc' = Cut(p) /\ kind' = "drop"
           \/ \E p \in Lines1 : doc' = Put(p, <<doc[p]>>) /\ kind' = "repeat"
           \/ \E p \in 1..(Len(doc) - 1) :
                doc' = SubSeq(doc, 1, p - 1) \o <<doc[p + 1], doc[p]>> \o SubSeq(doc, p + 2, Len(doc))
                /\ kind' = "swap"
           \/ \E p \in Lines1, v \in 1..Len(AnyVals) : doc' = [doc EXCEPT ![p][2] = AnyVals[v]] /\ kind' = "value"
           \/ \E p \in Lines1, h \in 1..Len(AnyHeads) : doc' = [doc EXCEPT ![p][1] = AnyHeads[h]] /\ kind' = "head"
           \/ \E p \in Begins, v \in 1..Len(Header.comps) :
                doc' = [doc EXCEPT ![p][2] = Header.comps[v], ![EndOf(p)][2] = Header.comps[v]] /\ kind' = "rename"
           \/ \E p \in Begins : doc' = SubSeq(doc, p, EndOf(p)) /\ kind' = "part"
           \/ \E p \in 0..Len(doc), b \in 1..Len(Inserts) : doc' = Put(p, Inserts[b]) /\ kind' = "insert"
        /\ k' = ""
Judge == k = "" /\ k' = VerdictOf(doc) /\ UNCHANGED <<doc, n, base, kind>>
Next == (k = "" /\ Edit) \/ Judge
Spec == Init /\ [][Next]_vars

(* the bases are calendars; without any needed line they are not *)
BasesOk == (n = 0 /\ k # "") => k = "ok"
Needed == (k # "" /\ n = 1 /\ kind = "drop") =>
            \A h \in {i \in 1..Len(Heads) : Heads[i] \in Range(Header.needed)} :
               (Cardinality({i \in Lines1 : doc[i][1] = h})
                 < Cardinality({i \in 1..Len(Bases[base]) : Bases[base][i][1] = h})) => k = "bad"
(* BEGIN and END lines are paired *)
Paired == (k # "" /\ n = 1 /\ kind = "drop" /\
            Cardinality({i \in Lines1 : Heads[doc[i][1]] = V!TBEGIN})
            # Cardinality({i \in Lines1 : Heads[doc[i][1]] = V!TEND})) => k = "bad"
(* only a calendar at the top *)
Topmost == (k # "" /\ n = 1 /\ kind = "part" /\ doc # Bases[base]) => k = "bad"
Known == k \in {"", "ok", "bad", "free"}
Report == k # "" => PrintT("VPJ" \o ToJson([doc |-> doc, k |-> k]))
=============================================================================
