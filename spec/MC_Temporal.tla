---------------------------- MODULE MC_Temporal -----------------------------
(* Enumeration of texts and values for C12, one state each.                *)
EXTENDS Temporal, TLC, Json

CONSTANTS Deep, Known      \* Deep: the larger enumeration

(* a state is one case: a text [m |-> "text", k |-> kind, t, z |-> TZIDs,  *)
(* n |-> characters that may be appended], or a value [m |-> "value", k, v] *)
VARIABLE x

(* value sets; cfg files cannot hold negative numbers or sequences *)
YearDays(y) == DayOf(y, 1, 1)..DayOf(y, 12, 31)
EdgeYears == {1, 4, 9, 10, 99, 100, 400, 999, 1000, 1582, 1899, 1900, 1970, 1999, 2000,
              2024, 2100, 9999}
FewDays == {1, 59, 60, 61, 365, 366, 1461, 146097, 730120, 730179, 730180, 737425, MAXDAY - 1, MAXDAY}
Starts == UNION {{DayOf(y, m, 1), DayOf(y, m, DaysIn(y, m))} : y \in EdgeYears, m \in 1..12}
DurDays == {0, 1, 2, 6, 7, 8, 13, 14, 30, 365, 366, 9999, 99999, MAXDUR,
            -1, -2, -7, -8, -14, -365, -100000, -MAXDUR}
EdgeClocks == {h * 3600 + m * 60 + s : h \in {0, 1, 9, 10, 12, 19, 20, 23},
                                       m \in {0, 1, 9, 10, 59}, s \in {0, 1, 9, 10, 59}}
AllClocks == 0..86399
NoDays == {}

KnownZones == {<<69, 117, 114, 111, 112, 101, 47, 66, 101, 114, 108, 105, 110>>,
               <<65, 109, 101, 114, 105, 99, 97, 47, 78, 101, 119, 95, 89, 111, 114, 107>>}
Berlin == <<69, 117, 114, 111, 112, 101, 47, 66, 101, 114, 108, 105, 110>>
NoTz == {<<>>}
SomeTz == {<<>>, <<Berlin>>, <<Berlin, Berlin>>, << <<78, 111>> >>}
Empty == {<<>>}
DurBases == {<<CP>>, <<CP, CT>>, <<MINUS, CP, 49, CD>>, <<CP, 50, CW, 51, CD, CT>>}
DateBases == {<<50, 48, 50, 48, 48, 50, 50, 57>>, <<49, 57, 48, 48, 48, 50, 50, 56>>,
              <<50, 48, 50, 49, 49, 50, 51, 49>>, <<48, 48, 48, 49, 48, 49, 48, 49>>}
TPart == <<CT, 50, 51, 53, 57, 53, 57>>
DTBases == {b \o TPart : b \in DateBases} \cup {b \o TPart \o <<CZ>> : b \in DateBases}
           \cup {<<50, 48, 50, 48, 48, 50>>, <<50, 48, 50, 48, 49, 49, 51, 48>>,
                 <<50, 48, 50, 48, 49, 49, 51, 48, CT, 48, 57>>,
                 <<50, 48, 50, 48, 49, 49, 51, 48, CT, 49, 57, 51, 48, CZ>>}
TimeBases == {<<50, 51, 53, 57, 53, 57>>, <<48, 57, 51, 48, 48, 48, CZ>>, <<49, 50>>, <<49, 50, 51, 48>>}
B1 == <<50, 48, 50, 48, 48, 50, 50, 57>> \o TPart
B2 == <<50, 48, 50, 48, 48, 51, 48, 49>> \o <<CT, 48, 48, 48, 48, 48, 48>>
PeriodBases == {B1 \o <<SLASH>> \o B2, B1 \o <<CZ, SLASH>> \o B2 \o <<CZ>>,
                B1 \o <<SLASH, CP, 49, CD, CT, 50, CH>>, B1 \o <<CZ, SLASH, CP, CT, 53, CM>>,
                B2 \o <<SLASH>> \o B1}
OffBases == {<<PLUS, 48, 49, 51, 48>>, <<MINUS, 49, 50, 51, 48, 49, 53>>}


Case(kind, t, z, n) == [m |-> "text", k |-> kind, t |-> t, z |-> z, n |-> n]
Value(kind, v) == [m |-> "value", k |-> kind, v |-> v]

(* texts over an alphabet, after a prefix *)
DurAlpha == {CP, CT, CD, CW, CH, CS, MINUS, 49, 57}
OffAlpha == {PLUS, MINUS, 48, 49, 53, 57}
TimeAlpha == {48, 49, 50, 54, 57, CZ}
Alphabet(k) == CASE k = "duration" -> DurAlpha [] k = "offset" -> OffAlpha [] k = "time" -> TimeAlpha
Grown == {Case("duration", b, <<>>, IF Deep THEN 5 ELSE 4) : b \in DurBases}
         \cup {Case("offset", <<>>, <<>>, IF Deep THEN 7 ELSE 5),
               Case("time", <<>>, <<>>, IF Deep THEN 6 ELSE 5)}

(* every text at edit distance at most one from a base *)
Edits(b, A) == {b}
    \cup {Until(b, i) \o From(b, i + 1) : i \in 1..Len(b)}
    \cup {[b EXCEPT ![i] = c] : i \in 1..Len(b), c \in A}
    \cup {Until(b, i) \o <<c>> \o From(b, i) : i \in 1..(Len(b) + 1), c \in A}
EditChars == IF Deep THEN (48..57) \cup {CT, CZ, Ct, Cz, MINUS, SLASH, PLUS, CP, SP, 46}
             ELSE (48..53) \cup {57, CT, CZ, MINUS, SLASH, SP}
TzChars == IF Deep THEN {CZ, 48, CT, SLASH, MINUS} ELSE {CZ}
EditBases(k) == CASE k = "date" -> DateBases [] k = "datetime" -> DTBases
                  [] k = "time" -> TimeBases [] k = "period" -> PeriodBases
                  [] k = "offset" -> OffBases
TzKinds == {"date", "datetime", "time", "period"}
(* cases reached from a seed, so that workers share the enumeration *)
Seed(s, k, b) == [m |-> "seed", s |-> s, k |-> k, b |-> b]
EditSeeds == UNION {{Seed("edit", k, b) : b \in EditBases(k)} : k \in TzKinds \cup {"offset"}}
             \cup UNION {{Seed("tz", k, b) : b \in EditBases(k)} : k \in TzKinds}

(* values *)
ZZ == {<<>>, UTC}
Clocks == IF Deep THEN AllClocks ELSE EdgeClocks
ValueSeeds == {Seed("date", "date", y) : y \in IF Deep THEN 1600..1999 \cup EdgeYears ELSE EdgeYears}
    \cup {Seed("datetime", "datetime", d) : d \in IF Deep THEN Starts ELSE FewDays}
    \cup {Seed("duration", "duration", d) : d \in DurDays}
    \cup {Seed("time", "time", h) : h \in 0..23} \cup {Seed("offset", "offset", h) : h \in 0..23}
Hour(h) == {s \in Clocks : s \div 3600 = h}
Cases(s) ==
    CASE s.s = "edit" -> {Case(s.k, t, <<>>, 0) : t \in Edits(s.b, EditChars)}
      [] s.s = "tz" -> {Case(s.k, t, z, 0) : t \in Edits(s.b, TzChars), z \in SomeTz}
      [] s.s = "date" -> {Value("date", d) : d \in YearDays(s.b)}
      [] s.s = "datetime" -> {Value("datetime", [w |-> <<s.b, c>>, z |-> z]) : c \in EdgeClocks, z \in ZZ}
      [] s.s = "time" -> {Value("time", [s |-> c, z |-> z]) : c \in Hour(s.b), z \in ZZ}
      [] s.s = "duration" -> {Value("duration", <<s.b, c>>) : c \in EdgeClocks}
      [] s.s = "offset" -> {Value("offset", c) : c \in Hour(s.b)} \cup {Value("offset", -c) : c \in Hour(s.b)}

Init == x \in Grown \cup EditSeeds \cup ValueSeeds
Next == \/ /\ x.m = "text"
           /\ x.n > 0
           /\ \E c \in Alphabet(x.k) : x' = [x EXCEPT !.t = Append(@, c), !.n = @ - 1]
        \/ /\ x.m = "seed"
           /\ x' \in Cases(x)
Spec == Init /\ [][Next]_x

Report == x.m # "seed" => PrintT("VPJ" \o ToJson(
            IF x.m = "text" THEN [x |-> x, r |-> Read(x.k, x.t, x.z, Known)]
            ELSE [x |-> x, r |-> Write(x.k, x.v)]))

(* laws *)
RoundTrip == x.m = "value" =>
    LET w == Write(x.k, x.v) IN Read(x.k, w.t, w.tz, Known) = Ok(x.v)
FixedWidth == x.m = "value" =>
    Len(Write(x.k, x.v).t) \in
        CASE x.k = "date" -> {8}
          [] x.k = "datetime" -> {15, 16}
          [] x.k = "time" -> {6, 7}
          [] x.k = "offset" -> {5, 7}
          [] OTHER -> 1..40
WriteOfRead == x.m = "text" =>       \* what was read can be written and read again
    LET r == Read(x.k, x.t, x.z, Known)
    IN  r.k \in {"ok", "maybe"} =>
            LET w == Write(x.k, r.v) IN Read(x.k, w.t, w.tz, Known).v = r.v
=============================================================================
