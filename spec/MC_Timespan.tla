---------------------------- MODULE MC_Timespan -----------------------------
(* Bounded exploration of Timespan: every edit from every reachable state. *)
EXTENDS Timespan, Json, IOUtils

CONSTANTS Kinds, Days, TimesOfDay, ZoneIds, Durs, OpNames, Low, MaxZoneOps

MCZones == ndJsonDeserialize(IOEnv.VP_HEADER)[1].zones

MCDurs == {<<0 - 1, 82800>>, <<0, 0>>, <<0, 3600>>, <<1, 0>>, <<1, 3600>>, <<2, 0>>}

VARIABLES ts, n     \* n: zone changes so far

ZoneOp(op) == op.op \in {"replacetz", "converttz"}

DTs == {DT(d, s, z) : d \in Days, s \in TimesOfDay, z \in ZoneIds}
OptDT == {<<>>} \cup {<<t>> : t \in DTs}
OptDur == {<<>>} \cup {<<d>> : d \in Durs}

AllOps ==
    {[op |-> "begin", v |-> x] : x \in OptDT}
    \cup {[op |-> "end", v |-> x] : x \in OptDT}
    \cup {[op |-> "duration", v |-> x] : x \in OptDur}
    \cup {[op |-> "convert", v |-> <<x>>] : x \in {"end", "duration", "none"}}
    \cup {[op |-> "allday", v |-> <<>>], [op |-> "unset", v |-> <<>>]}
    \cup {[op |-> "replacetz", v |-> <<z>>] : z \in ZoneIds}
    \cup {[op |-> "converttz", v |-> <<z>>] : z \in ZoneIds \ {""}}

Ops == {o \in AllOps : o.op \in OpNames}

(* constructions, tried once from each new entry *)
Builds ==
    IF "build" \notin OpNames THEN {}
    ELSE {[op |-> "build", v |-> <<b, e, <<>> >>] : b \in OptDT, e \in OptDT}
         \cup {[op |-> "build", v |-> <<b, <<>>, d>>] : b \in OptDT, d \in OptDur}
         \cup {[op |-> "build", v |-> <<b, b, <<OneDay>> >>] : b \in OptDT}

Init == n = 0 /\ ts \in {Empty(k) : k \in Kinds}

(* keep derived values inside the grid's neighbourhood *)
InRange(t) == \A o \in {t.b, EffEnd(t)} : Some(o) =>
                 /\ The(o).w[1] >= Low - 1
                 /\ The(o).w[1] <= Low + 5

Next ==
    \E op \in Ops \cup (IF ts = Empty(ts.k) THEN Builds ELSE {}) :
        LET r == Apply(ts, op, "UTC")
        IN  /\ InRange(r.ts)
            /\ ts' = r.ts
            /\ n' = IF ZoneOp(op) THEN n + 1 ELSE n
            /\ n' <= MaxZoneOps
            /\ PrintT("VPJ" \o ToJson([s |-> ts, op |-> op, ok |-> r.ok, t |-> r.ts, o |-> Obs(r.ts)]))

Spec == Init /\ [][Next]_<<ts, n>>

(***************************************************************************)
(* Properties of the design.                                               *)
(***************************************************************************)
AlwaysValid == Valid(ts)

EndIsBeginPlusDuration ==
    (Some(ts.b) /\ Some(EffDur(ts))) =>
        /\ Some(EffEnd(ts))
        /\ DTMinus(The(EffEnd(ts)), The(ts.b)) = The(EffDur(ts))

ConversionPreserves ==
    \A target \in {"end", "duration"} :
        LET r == ConvertEnd(ts, target)
        IN  r.ok => /\ Some(EffEnd(ts)) = Some(EffEnd(r.ts))
                    /\ Some(EffEnd(ts)) => DTSame(The(EffEnd(ts)), The(EffEnd(r.ts)))
                    /\ EffDur(r.ts) = EffDur(ts)

AllDayIdempotent ==
    LET r == MakeAllDay(ts) IN r.ok => MakeAllDay(r.ts) = r

AllDayCovers ==
    LET r == MakeAllDay(ts)
    IN  (r.ok /\ Some(ts.b)) =>
            /\ TLe(The(r.ts.b).w, The(ts.b).w)
            /\ Some(EffEnd(ts)) =>
                 /\ TLe(The(EffEnd(ts)).w, The(EffEnd(r.ts)).w)
                 /\ TLe(OneDay, The(EffDur(r.ts)))
                 /\ (Some(ts.d) <=> Some(r.ts.d))

UnsetKeeps ==
    LET r == UnsetAllDay(ts)
    IN  ts.day => r.ok /\ r.ts.b = ts.b /\ r.ts.e = ts.e /\ r.ts.d = ts.d /\ ~r.ts.day

ZoneReplaceKeepsWall ==
    \A z \in ZoneIds :
        LET r == ReplaceZone(ts, z)
        IN  r.ok => /\ Some(ts.b) => The(r.ts.b).w = The(ts.b).w
                    /\ Some(ts.e) => The(r.ts.e).w = The(ts.e).w
                    /\ r.ts.d = ts.d
ZoneConvertKeepsInstant ==
    \A z \in ZoneIds \ {""} :
        LET r == ConvertZone(ts, z, "UTC")
        IN  ~ts.day => /\ r.ok
                       /\ Some(ts.b) => Instant(The(r.ts.b)) = Instant(The(ts.b))
                       /\ Some(ts.e) => Instant(The(r.ts.e)) = Instant(The(ts.e))
                       /\ r.ts.d = ts.d

ZoneOpsKeepForm ==
    \A z \in ZoneIds :
        LET r == ReplaceZone(ts, z) q == ConvertZone(ts, z, "UTC")
        IN  /\ r.ok => Rep(r.ts) = Rep(ts) /\ (ts.day <=> r.ts.day)
            /\ z # "" => /\ q.ok => Rep(q.ts) = Rep(ts) /\ (ts.day <=> q.ts.day)
            /\ ts.day => ~r.ok /\ (z # "" => ~q.ok)
=============================================================================
