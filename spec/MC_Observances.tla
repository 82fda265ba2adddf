--------------------------- MODULE MC_Observances ---------------------------
(***************************************************************************)
(* A catalogue of definitions, given as texts.  Mode "table" visits all    *)
(* points around all onsets, "history" all query histories over pairs of   *)
(* zones, with a cache of the last answers in between.                     *)
(***************************************************************************)
EXTENDS Observances, Json, IOUtils

CONSTANTS Mode, MaxLen, Cap
Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
Defs == TLCEval([i \in 1..Len(Header.texts) |->
                   TLCEval(DefOf(ZonesIn(ParseText(Header.texts[i]).v, 1)[1]).v)])
N == Len(Header.texts)

(* points around the onsets of the years of interest *)
AllOnsets(d, y0, y1) ==
    UNION {LET o == d.obs[i]
           IN  {w \in o.rdates : Civil(w[1])[1] \in y0..y1}
               \cup UNION {UNION {Counted(o.rules[k], y) : y \in y0..y1} : k \in 1..Len(o.rules)} :  \* also the excluded ones
             i \in 1..Len(d.obs)}
Steps == {k * 900 : k \in -(Header.span)..Header.span} \cup {-1, 1, -3601, 3599}
Points(i) == {Plus(w, k) : w \in AllOnsets(Defs[i], Header.years[i][1], Header.years[i][2]),
                           k \in Steps}

VARIABLES pair, hist, cache
vars == <<pair, hist, cache>>

(* ------------------------------------------------------------- history *)
Pool == Header.pool            \* per definition a sequence of [t, f]
Table == TLCEval([i \in 1..N |-> TLCEval([k \in 1..Len(Pool[i]) |->
                    TLCEval(Answers(Defs[i], Pool[i][k].t, Pool[i][k].f))])])
(* a cache is a sequence of [key, a], the most recently used one last *)
Hit(c, key) == {n \in 1..Len(c) : c[n].key = key}
Touch(c, n) == SubSeq(c, 1, n - 1) \o SubSeq(c, n + 1, Len(c)) \o <<c[n]>>
Store(c, e) == LET d == Append(c, e) IN IF Len(d) > Cap THEN Tail(d) ELSE d

Init == /\ hist = <<>>
        /\ pair \in (IF Mode = "table" THEN {<<i, i>> : i \in 1..N}
                     ELSE {Header.pairs[n] : n \in 1..Len(Header.pairs)})
        /\ cache = <<<<>>, <<>>>>

Ask == /\ Mode = "history" /\ Len(hist) < MaxLen
       /\ \E z \in 1..2 : \E k \in 1..Len(Pool[pair[z]]) :
            LET q == Pool[pair[z]][k]
                key == <<q.t, q.f>>
                h == Hit(cache[z], key)
                n == CHOOSE x \in h : TRUE
                a == IF h # {} THEN cache[z][n].a ELSE Table[pair[z]][k]
            IN  /\ hist' = Append(hist, [z |-> z, k |-> k, as |-> a])
                /\ cache' = [cache EXCEPT ![z] = IF h # {} THEN Touch(@, n)
                                                 ELSE Store(@, [key |-> key, a |-> a])]
       /\ UNCHANGED pair

(* --------------------------------------------------------------- table *)
D == Defs[pair[1]]
Row == /\ Mode = "table" /\ hist = <<>>
       /\ \E t \in Points(pair[1]) :
            hist' = <<[t |-> t, a0 |-> Answers(D, t, 0), a1 |-> Answers(D, t, 1),
                       cons |-> Consistent(D, t),
                       local |-> Local(D, t),         \* of t as an instant
                       rep |-> Answers(D, Local(D, t).t, 0) # Answers(D, Local(D, t).t, 1)]>>
       /\ UNCHANGED <<pair, cache>>

Next == Ask \/ Row
Spec == Init /\ [][Next]_vars

Report == (Len(hist) = MaxLen) => PrintT("VPJ" \o ToJson([p |-> pair, h |-> hist]))

(* an answer never depends on what was asked before *)
CacheTransparent ==
    Mode = "history" =>
        \A n \in 1..Len(hist) : hist[n].as = Table[pair[hist[n].z]][hist[n].k]

R == hist[1]
Offs(as) == {a.off : a \in as}
(* an instant, expressed locally and back *)
RoundTripUtc ==
    (Mode = "table" /\ hist # <<>>) =>
        (R.cons => LET as == Answers(D, R.local.t, R.local.f)
                   IN  \A a \in as : Plus(R.local.t, -a.off) = R.t)
(* a local time that is not skipped, expressed in UTC and back *)
RoundTripWall ==
    (Mode = "table" /\ hist # <<>>) =>
        ((Consistent(D, R.t) /\ ~SkippedWall(D, R.t)) =>
           \A f \in 0..1 : \A a \in (IF f = 0 THEN R.a0 ELSE R.a1) :
              LET l == Local(D, Plus(R.t, -a.off))
              IN  l.t = R.t /\ (R.a0 # R.a1 => l.f = f))
(* the second pass never has the greater offset *)
FoldsBack == (Mode = "table" /\ hist # <<>> /\ R.cons) =>
    \A a \in R.a0, b \in R.a1 : b.off <= a.off
=============================================================================
