----------------------------- MODULE MC_TzRefs ------------------------------
(***************************************************************************)
(* Timezones by reference, with zones and definitions as atoms.  A source  *)
(* is [b, d]: the TZID it asks for and the definition it stands for.       *)
(* Files are what is written: definitions by id, and values with ids.      *)
(*   Mode "plans"  all histories of putting values into two calendars,     *)
(*                 moving them and reading back what was written           *)
(*   Mode "files"  all files of a few items in any order, and what each    *)
(*                 value in them means                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxLen

VARIABLES cals, plan
vars == <<cals, plan>>

NONE == "none"
(* the harness has a zone for each of these sources and a text for each of *)
(* these items                                                             *)
Sources == <<[b |-> "X", d |-> "d1"], [b |-> "X", d |-> "d2"], [b |-> "X (2)", d |-> "d4"],
             [b |-> "X", d |-> "-8 h"], [b |-> "X", d |-> "+7 h"],
             [b |-> "Berlin", d |-> "builtin"],
             [b |-> NONE, d |-> "utc"], [b |-> NONE, d |-> "float"]>>
Zone(id, d) == [t |-> "zone", id |-> id, d |-> d]
Entry(id) == [t |-> "entry", id |-> id, d |-> NONE]
Items == <<Zone("X", "d1"), Zone("X", "d2"), Zone("Berlin", "d1"), Zone("Windows", "d4"),
           Entry("X"), Entry("Berlin"), Entry("Windows"), Entry("system"), Entry("unknown"),
           Entry("utc"), Entry("float"), Entry("part")>>
BuiltinIds == {"Berlin", "Windows"}
SystemIds == {"system"}

Named(s) == s.b # NONE          \* neither floating nor UTC

(* write values in order; a TZID taken by another definition gets a number *)
RECURSIVE Fresh(_, _, _)
Fresh(zs, s, n) ==
    LET id == IF n = 1 THEN s.b ELSE s.b \o " (" \o ToString(n) \o ")"
        have == {i \in 1..Len(zs) : zs[i].id = id}
    IN  IF have = {} THEN [id |-> id, new |-> TRUE]
        ELSE IF zs[CHOOSE i \in have : TRUE].d = s.d THEN [id |-> id, new |-> FALSE]
        ELSE Fresh(zs, s, n + 1)
RECURSIVE WriteFrom(_, _, _)
WriteFrom(vs, i, f) ==
    IF i > Len(vs) THEN f
    ELSE IF ~Named(vs[i]) THEN WriteFrom(vs, i + 1, [f EXCEPT !.vals = Append(@, [id |-> NONE, d |-> vs[i].d])])
    ELSE LET r == Fresh(f.zones, vs[i], 1)
         IN  WriteFrom(vs, i + 1,
               [zones |-> IF r.new THEN Append(f.zones, [id |-> r.id, d |-> vs[i].d]) ELSE f.zones,
                vals |-> Append(f.vals, [id |-> r.id, d |-> NONE])])
Written(vs) == WriteFrom(vs, 1, [zones |-> <<>>, vals |-> <<>>])

ZoneOfId(f, id) == {i \in 1..Len(f.zones) : f.zones[i].id = id}
ReadVal(f, v) == IF v.id = NONE THEN [b |-> NONE, d |-> v.d]
                 ELSE LET i == CHOOSE k \in ZoneOfId(f, v.id) : TRUE
                      IN  [b |-> v.id, d |-> f.zones[i].d]
ReadBack(f) == [i \in 1..Len(f.vals) |-> ReadVal(f, f.vals[i])]

Init == cals = <<<<>>, <<>>>> /\ plan = <<>>
More == Len(plan) < MaxLen
Step(p) == plan' = Append(plan, p)
Put(c, k) == (plan = <<>> => c = 1) /\ cals' = [cals EXCEPT ![c] = Append(@, Sources[k])] /\ Step(<<"put", c, k>>)
Share(c) == /\ cals[c] # <<>>
            /\ cals' = [cals EXCEPT ![3 - c] = Append(@, cals[c][1])] /\ Step(<<"share", c, 0>>)
Drop(c) == /\ Len(cals[c]) > 1
           /\ cals' = [cals EXCEPT ![c] = Tail(@)] /\ Step(<<"drop", c, 0>>)
Reload(c) == /\ cals[c] # <<>>
             /\ cals' = [cals EXCEPT ![c] = ReadBack(Written(@))] /\ Step(<<"reload", c, 0>>)
Edit == \E c \in 1..2 : (\E k \in 1..Len(Sources) : Put(c, k)) \/ Share(c) \/ Drop(c) \/ Reload(c)

AddItem == \E k \in 1..Len(Items) :
              /\ Items[k].t = "zone" => \A i \in 1..Len(plan) : Items[plan[i]].t = "zone" =>
                                            Items[plan[i]].id # Items[k].id
              /\ Step(k) /\ UNCHANGED cals
Next == More /\ (IF Mode = "plans" THEN Edit ELSE AddItem)
Spec == Init /\ [][Next]_vars

Report == (plan # <<>> /\ (Mode = "files" \/ Len(plan) = MaxLen)) => PrintT("VPJ" \o ToJson(plan))

Ids(f) == {f.zones[i].id : i \in 1..Len(f.zones)}
RefIds(f) == {f.vals[i].id : i \in 1..Len(f.vals)} \ {NONE}
(* exactly one definition for every TZID referred to *)
Closed == \A c \in 1..2 : LET f == Written(cals[c])
                          IN  Ids(f) = RefIds(f) /\ Cardinality(Ids(f)) = Len(f.zones)
(* what is read back stands for the same definitions *)
Survives == \A c \in 1..2 :
    LET r == ReadBack(Written(cals[c]))
    IN  /\ Len(r) = Len(cals[c])
        /\ \A i \in 1..Len(r) : r[i].d = cals[c][i].d
(* a second cycle changes nothing *)
Settled == \A c \in 1..2 : LET f == Written(cals[c]) IN Written(ReadBack(f)) = f

(* the meaning of a value in a file does not depend on the order of items *)
Meaning(p, id) == LET is == {i \in 1..Len(p) : Items[p[i]].t = "zone" /\ Items[p[i]].id = id}
                  IN  IF is # {} THEN Items[p[CHOOSE i \in is : TRUE]].d
                      ELSE IF id \in BuiltinIds THEN "builtin"
                      ELSE IF id \in SystemIds THEN "system" ELSE "error"
OrderIrrelevant ==
    Mode = "files" =>
        LET n == Len(plan)
            rev == [i \in 1..n |-> plan[n + 1 - i]]
        IN  \A i \in 1..n : Items[plan[i]].t = "entry" =>
               Meaning(plan, Items[plan[i]].id) = Meaning(rev, Items[plan[i]].id)
=============================================================================
