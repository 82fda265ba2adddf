------------------------------ MODULE TzRefs -------------------------------
(***************************************************************************)
(* Timezones referenced by and defined in calendar texts (C15).            *)
(* A slot is one date or time of a calendar:                               *)
(*   [uid, p, k, w, off]   with p the property, w the wall time and k one  *)
(* of "date", "float", "utc", "zone" (at an offset), "local" (of the       *)
(* system's zone, which may be written as floating) and "odd" (of a zone   *)
(* that cannot be written, unless its instant survives).                   *)
(***************************************************************************)
EXTENDS Observances

CONSTANTS BuiltinIds,    \* the TZIDs of built-in definitions
          BuiltinDef(_), \* and what they stand for
          Windows,       \* function from Windows names to built-in TZIDs
          Known          \* all texts that may name a zone of the system

WVCALENDAR == <<86, 67, 65, 76, 69, 78, 68, 65, 82>>
WVEVENT == <<86, 69, 86, 69, 78, 84>>
WVTODO == <<86, 84, 79, 68, 79>>
WVALARM == <<86, 65, 76, 65, 82, 77>>
WUID == <<85, 73, 68>>
WDTEND == <<68, 84, 69, 78, 68>>
WDUE == <<68, 85, 69>>
WTRIGGER == <<84, 82, 73, 71, 71, 69, 82>>
WVALUE == <<86, 65, 76, 85, 69>>
WDATE == <<68, 65, 84, 69>>

Comps(items, names) == SelectSeq(items, LAMBDA x : x.t = "comp" /\ x.name \in names)
ParamOf(l, n) == LET is == {i \in 1..Len(l.params) : l.params[i].n = n}
                 IN  IF is = {} THEN <<>>
                     ELSE LET vs == l.params[CHOOSE i \in is : TRUE].vals
                          IN  [i \in 1..Len(vs) |-> vs[i].v]
IsDate(l) == ParamOf(l, WVALUE) = <<WDATE>>

(* ------------------------------------------------------------- in texts *)
TimeProps == {WDTSTART, WDTEND, WDUE, WTRIGGER}
(* slots of a text, their zone still a TZID: [uid, p, k, w, tz] *)
RawSlot(uid, l) ==
    LET tz == ParamOf(l, WTZID)
        r == RDateTime(l.value, DTLENS, <<>>, {})
    IN  [uid |-> uid, p |-> l.name, w |-> r.v.w, tz |-> tz,
         k |-> IF IsDate(l) THEN "date" ELSE IF r.v.z = UTC THEN "utc"
               ELSE IF tz = <<>> THEN "float" ELSE "zone"]
IsTime(l) == l.name \in TimeProps /\ RDateTime(l.value, DTLENS, <<>>, {}).k = "ok"
LineSlots(uid, items) == {RawSlot(uid, items[i].l) : i \in
                            {j \in 1..Len(items) : items[j].t = "line" /\ IsTime(items[j].l)}}
UidOf(x) == IF Has(x.items, WUID) THEN Val(x.items, WUID) ELSE <<>>
RawSlots(cal) ==
    LET es == Comps(cal.items, {WVEVENT, WVTODO})
        alarms(e) == Comps(e.items, {WVALARM})
    IN  UNION {LineSlots(UidOf(es[i]), es[i].items)
               \cup UNION {LineSlots(UidOf(es[i]), alarms(es[i])[k].items) :
                             k \in 1..Len(alarms(es[i]))} : i \in 1..Len(es)}

(* TZIDs used anywhere but in timezone definitions *)
RECURSIVE Refs(_)
Refs(items) ==
    UNION {IF items[i].t = "line"
           THEN LET v == ParamOf(items[i].l, WTZID) IN {v[k] : k \in 1..Len(v)}
           ELSE IF items[i].name = WVTIMEZONE THEN {} ELSE Refs(items[i].items) :
             i \in 1..Len(items)}
(* the definitions of a calendar, in order: [id, d] *)
Defined(cal) ==
    LET zs == Comps(cal.items, {WVTIMEZONE})
    IN  TLCEval([i \in 1..Len(zs) |->
            LET d == DefOf(zs[i])
            IN  [ok |-> d.ok, d |-> d.v,
                 id |-> IF Has(zs[i].items, WTZID)
                        THEN Unescape(Val(zs[i].items, WTZID)).v ELSE <<>>]])

OffAt(def, w) == LET as == Answers(def, w, 0) IN (CHOOSE a \in as : TRUE).off

(***************************************************************************)
(* What a TZID means: the definition of the same calendar, wherever it     *)
(* stands, else the built-in one, also by its Windows name, else that of   *)
(* the system (whose offsets sys tells: [id, w, off]).                     *)
(***************************************************************************)
Resolve(defined, id, w, sys) ==
    LET own == {i \in 1..Len(defined) : defined[i].id = id}
        name == IF id \in DOMAIN Windows /\ id \notin BuiltinIds THEN Windows[id] ELSE id
        fromSys == {i \in 1..Len(sys) : sys[i].id = id /\ sys[i].w = w}
    IN  IF own # {} THEN Result(OffAt(defined[CHOOSE i \in own : \A j \in own : i <= j].d, w))
        ELSE IF name \in BuiltinIds THEN Result(OffAt(BuiltinDef(name), w))
        ELSE IF id \in Known THEN Result(sys[CHOOSE i \in fromSys : TRUE].off)
        ELSE Failure

Slot(defined, sys, r) ==
    LET z == IF r.k = "zone" THEN Resolve(defined, r.tz[1], r.w, sys) ELSE Result(0)
    IN  [ok |-> z.ok,
         v |-> [uid |-> r.uid, p |-> r.p, k |-> r.k, w |-> r.w, off |-> IF z.ok THEN z.v ELSE 0]]

(* the slots a calendar text must be read as *)
ReadSlots(raw, d, sys) ==
    LET all == TLCEval({TLCEval(Slot(d, sys, r)) : r \in raw})
    IN  IF \E x \in all : ~x.ok THEN Failure ELSE Result({x.v : x \in all})

InstantOf(s) == Plus(s.w, -s.off)
(* a slot as seen through the API: "date", "float" or "inst" *)
SeenAs(s, o) ==
    /\ s.uid = o.uid /\ s.p = o.p
    /\ CASE s.k = "date"  -> o.k = "date" /\ o.w[1] = s.w[1]
         [] s.k = "float" -> o.k = "float" /\ o.w = s.w
         [] OTHER         -> o.k = "inst" /\ InstantOf(o) = InstantOf(s)

(* a slot as written: r is a slot read from the text *)
WrittenAs(s, r) ==
    /\ s.uid = r.uid /\ s.p = r.p
    /\ CASE s.k = "date"  -> r.k = "date" /\ r.w[1] = s.w[1]
         [] s.k = "float" -> r.k = "float" /\ r.w = s.w
         [] s.k = "utc"   -> r.k = "utc" /\ r.w = InstantOf(s)
         [] s.k = "local" -> (r.k = "float" /\ r.w = s.w)
                             \/ (r.k \in {"utc", "zone"} /\ InstantOf(r) = InstantOf(s))
         [] OTHER         -> r.k \in {"utc", "zone"} /\ InstantOf(r) = InstantOf(s)

(***************************************************************************)
(* What is wrong with the written text of a calendar with these slots.     *)
(***************************************************************************)
FirstEntry(cal) == LET is == {i \in 1..Len(cal.items) : cal.items[i].t = "comp"
                                                        /\ cal.items[i].name \in {WVEVENT, WVTODO}}
                   IN  IF is = {} THEN Len(cal.items) + 1
                       ELSE CHOOSE i \in is : \A j \in is : i <= j
LateZone(cal) == \E i \in (FirstEntry(cal) + 1)..Len(cal.items) :
                    cal.items[i].t = "comp" /\ cal.items[i].name = WVTIMEZONE
WriteWrong(slots, cal) ==
    LET d == Defined(cal)
        ids == {d[i].id : i \in 1..Len(d)}
        refs == TLCEval(Refs(cal.items))
        raw == TLCEval(RawSlots(cal))
        marked == {r \in raw : r.k # "zone" /\ r.tz # <<>>}
        r == ReadSlots(raw, d, <<>>)
    IN  IF refs \ ids # {} THEN "a TZID is written whose timezone is not defined"
        ELSE IF ids \ refs # {} THEN "a timezone is written that nothing refers to"
        ELSE IF Cardinality(ids) # Len(d) THEN "a timezone is written twice"
        ELSE IF \E i \in 1..Len(d) : ~d[i].ok THEN "what is written is no timezone definition"
        ELSE IF LateZone(cal) THEN "a timezone is defined behind the first entry"
        ELSE IF marked # {} THEN "a value that is not zoned has a TZID"
        ELSE IF Cardinality(raw) # Cardinality(slots) THEN "the text has not the same times"
        ELSE IF ~r.ok THEN "a TZID is written whose timezone is not defined"
        ELSE IF \E s \in slots : ~\E x \in r.v : WrittenAs(s, x)
             THEN "a time is written as something else"
        ELSE ""
=============================================================================
