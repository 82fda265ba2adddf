------------------------------- MODULE Simple -------------------------------
(***************************************************************************)
(* Simple values and their texts (C24).                                    *)
(*   [int   |-> [n, d]]      sign, digits without leading zeros            *)
(*   [float |-> [n, d, e]]   sign, digits without zeros around them, place *)
(*                           of the last digit; zero is FALSE, <<>>, 0     *)
(*   [geo   |-> <<a, b>>]    two such floats                               *)
(*   [bool |-> b]  [bytes |-> <<...>>]  [uri |-> text]                     *)
(* Reading gives a verdict [k, v]: "ok" must be read as v, "any" must be   *)
(* read, "may" is read as v or rejected, "bad" is rejected, "free".        *)
(***************************************************************************)
EXTENDS Text

Ok(v) == [k |-> "ok", v |-> v]
May(v) == [k |-> "may", v |-> v]
AnyValue == [k |-> "any", v |-> <<>>]
Bad_ == [k |-> "bad", v |-> <<>>]
Free == [k |-> "free", v |-> <<>>]
Weaken(r) == CASE r.k = "ok" -> May(r.v) [] r.k = "any" -> Free [] OTHER -> r

Digit(c) == 48 <= c /\ c <= 57
AllDigits(t) == \A i \in 1..Len(t) : Digit(t[i])
Blank(c) == c \in (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
            \/ (8192 <= c /\ c <= 8202)
RECURSIVE LTrim(_), RTrim(_)
LTrim(t) == IF t # <<>> /\ Blank(t[1]) THEN LTrim(Tail(t)) ELSE t
RTrim(t) == IF t # <<>> /\ Blank(t[Len(t)]) THEN RTrim(Until(t, Len(t))) ELSE t
Trim(t) == RTrim(LTrim(t))

RECURSIVE NoLead(_), NoTrail(_)
NoLead(d) == IF d # <<>> /\ d[1] = 0 THEN NoLead(Tail(d)) ELSE d
NoTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN NoTrail(Until(d, Len(d))) ELSE d
Vals(t) == TLCEval([i \in 1..Len(t) |-> t[i] - 48])
Chars(d) == TLCEval([i \in 1..Len(d) |-> d[i] + 48])
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE 10 * Num(Until(d, Len(d))) + d[Len(d)]
Zeros(n) == [i \in 1..n |-> 48]

Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Unsigned(t) == IF Signed(t) THEN Tail(t) ELSE t
Minus(t) == t # <<>> /\ t[1] = 45

(* integers *)
MkInt(neg, d) == LET x == NoLead(d) IN [int |-> [n |-> neg /\ x # <<>>, d |-> x]]
RInt(t) == LET c == Trim(t)
               u == Unsigned(c)
               r == IF u = <<>> \/ ~AllDigits(u) THEN Bad_
                    ELSE IF Len(u) > 4000 THEN Free ELSE Ok(MkInt(Minus(c), Vals(u)))
           IN  IF c = t THEN r ELSE Weaken(r)
WInt(v) == (IF v.n THEN <<45>> ELSE <<>>) \o (IF v.d = <<>> THEN <<48>> ELSE Chars(v.d))
SInt(t) == RInt(t).k = "ok"

(* decimal numbers *)
Canon(neg, d, e) ==
    LET x == NoLead(d)
        y == NoTrail(x)
    IN  IF y = <<>> THEN [n |-> FALSE, d |-> <<>>, e |-> 0]
        ELSE [n |-> neg, d |-> y, e |-> e + Len(x) - Len(y)]
RNum(t) ==          \* of a text without blanks around it
    LET u == Unsigned(t)
        x == Find(u, {69, 101}, 1)
        m == Until(u, x)
        ex == From(u, x + 1)
        p == Find(m, {46}, 1)
        whole == Until(m, p)
        frac == From(m, p + 1)
        hasE == x <= Len(u)
        eu == Unsigned(ex)
        shape == AllDigits(whole) /\ AllDigits(frac) /\ (whole # <<>> \/ frac # <<>>)
                 /\ (hasE => (eu # <<>> /\ AllDigits(eu)))
        plain == ~hasE /\ whole # <<>> /\ (p <= Len(m) => frac # <<>>)
        e == IF hasE THEN (IF Minus(ex) THEN -Num(Vals(eu)) ELSE Num(Vals(eu))) ELSE 0
        v == Canon(Minus(t), Vals(whole \o frac), e - Len(frac))
        r == IF Len(v.d) > 15 THEN AnyValue ELSE Ok(v)
    IN  IF ~shape THEN Bad_
        ELSE IF Len(m) > 250 \/ (hasE /\ Len(NoLead(Vals(eu))) > 2) THEN Free
        ELSE IF plain THEN r ELSE Weaken(r)
RPlace(t) == LET c == Trim(t) IN IF c = t THEN RNum(t) ELSE Weaken(RNum(c))
SNum(t) == LET u == Unsigned(t)
               p == Find(u, {46}, 1)
           IN  /\ p > 1 /\ AllDigits(Until(u, p)) /\ AllDigits(From(u, p + 1)) /\ p # Len(u)
WNum(v) ==
    LET d == Chars(v.d)
        s == IF v.n THEN <<45>> ELSE <<>>
        pad == Zeros(-v.e - Len(d) + 1) \o d       \* at least one digit before the point
        q == IF Len(d) > -v.e THEN d ELSE pad
    IN  IF d = <<>> THEN <<48, 46, 48>>
        ELSE s \o (IF v.e >= 0 THEN d \o Zeros(v.e) \o <<46, 48>>
                   ELSE SubSeq(q, 1, Len(q) + v.e) \o <<46>> \o SubSeq(q, Len(q) + v.e + 1, Len(q)))
RFloat(t) == LET r == RPlace(t) IN IF r.k \in {"ok", "may"} THEN [r EXCEPT !.v = [float |-> r.v]] ELSE r

(* coordinates *)
RGeo(t) ==
    LET j == Find(t, {SEMI}, 1)
        a == RPlace(Until(t, j))
        b == RPlace(From(t, j + 1))
        ks == {a.k, b.k}
    IN  IF j > Len(t) \/ "bad" \in ks THEN Bad_
        ELSE IF "free" \in ks THEN Free
        ELSE IF "any" \in ks THEN IF "may" \in ks THEN Free ELSE AnyValue
        ELSE IF "may" \in ks THEN May([geo |-> <<a.v, b.v>>]) ELSE Ok([geo |-> <<a.v, b.v>>])
SGeo(t) == LET p == Split(t, {SEMI}) IN Len(p) = 2 /\ SNum(p[1]) /\ SNum(p[2])
WGeo(v) == WNum(v[1]) \o <<SEMI>> \o WNum(v[2])
Micro(x) ==         \* towards zero, in millionths; only below a thousand
    LET cut == Len(x.d) + x.e + 6          \* digits left
    IN  IF x.e >= -6 THEN Num(x.d \o [i \in 1..x.e + 6 |-> 0])
        ELSE IF cut <= 0 THEN 0 ELSE Num(SubSeq(x.d, 1, cut))
Small(x) == Len(x.d) + x.e <= 3
Near(x, y) ==       \* y is x to six places
    IF x.e >= -6 THEN x = y
    ELSE IF ~Small(x) \/ ~Small(y) THEN TRUE
    ELSE /\ y.e >= -6
         /\ y.d # <<>> => y.n = x.n
         /\ Micro(y) - Micro(x) \in {0, 1}

(* truth *)
True == <<84, 82, 85, 69>>
False == <<70, 65, 76, 83, 69>>
YesWords == {<<84>>, <<89>>, <<89, 69, 83>>, <<79, 78>>, <<49>>}
NoWords == {<<70>>, <<78>>, <<78, 79>>, <<79, 70, 70>>, <<48>>}
RBool(t) ==
    LET u == Upper(t)
    IN  IF \E i \in 1..Len(t) : t[i] > 127 THEN Free
        ELSE IF u = True THEN Ok([bool |-> TRUE])
        ELSE IF u = False THEN Ok([bool |-> FALSE])
        ELSE IF u \in YesWords THEN May([bool |-> TRUE])
        ELSE IF u \in NoWords THEN May([bool |-> FALSE])
        ELSE Bad_
WBool(b) == IF b THEN True ELSE False
SBool(t) == t \in {True, False}

(* bytes in base 64 *)
B64(k) == IF k < 26 THEN 65 + k ELSE IF k < 52 THEN 71 + k ELSE IF k < 62 THEN k - 4
          ELSE IF k = 62 THEN 43 ELSE 47
Inv(c) == CASE 65 <= c /\ c <= 90 -> c - 65 [] 97 <= c /\ c <= 122 -> c - 71
            [] 48 <= c /\ c <= 57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
RECURSIVE WBytes(_, _)
WBytes(b, i) ==
    LET n == Len(b) - i + 1
        x(k) == IF k <= Len(b) THEN b[k] ELSE 0
        q == << B64(x(i) \div 4), B64((x(i) % 4) * 16 + x(i + 1) \div 16),
                B64((x(i + 1) % 16) * 4 + x(i + 2) \div 64), B64(x(i + 2) % 64) >>
    IN  IF n <= 0 THEN <<>>
        ELSE (IF n = 1 THEN <<q[1], q[2], 61, 61>> ELSE IF n = 2 THEN <<q[1], q[2], q[3], 61>> ELSE q)
             \o WBytes(b, i + 3)
RECURSIVE Quads(_, _)
Quads(t, i) ==      \* the bytes, whatever the bits left over are
    IF i > Len(t) THEN <<>>
    ELSE LET q == [k \in 1..4 |-> Inv(t[i + k - 1])]
             n == IF t[i + 3] # 61 THEN 3 ELSE IF t[i + 2] # 61 THEN 2 ELSE 1
             b1 == q[1] * 4 + q[2] \div 16
             b2 == (q[2] % 16) * 16 + q[3] \div 4
             b3 == (q[3] % 4) * 64 + q[4]
         IN  (CASE n = 3 -> <<b1, b2, b3>> [] n = 2 -> <<b1, b2>> [] n = 1 -> <<b1>>) \o Quads(t, i + 4)
Padded(t) ==
    LET n == Len(t)
        pads == IF n >= 2 /\ t[n] = 61 THEN IF t[n - 1] = 61 THEN 2 ELSE 1 ELSE 0
    IN  n % 4 = 0 /\ \A i \in 1..(n - pads) : Inv(t[i]) >= 0
RECURSIVE NoPads(_)
NoPads(t) == IF t # <<>> /\ t[Len(t)] = 61 THEN NoPads(Until(t, Len(t))) ELSE t
TooManyPads(t) == LET n == Len(NoPads(t)) IN (n % 4) # 1 /\ (Len(t) - n) > ((4 - (n % 4)) % 4)
RBytes(t) ==        \* blanks within and pads too many may be overlooked
    IF (\E i \in 1..Len(t) : Blank(t[i])) \/ TooManyPads(t) THEN Free
    ELSE IF ~Padded(t) THEN Bad_
    ELSE LET v == Quads(t, 1) IN IF WBytes(v, 1) = t THEN Ok([bytes |-> v]) ELSE May([bytes |-> v])

(* URIs in a form nothing can be said against *)
Lower(c) == 97 <= c /\ c <= 122
Plain(c) == Digit(c) \/ Lower(c) \/ Lower(c + 32) \/ c \in {37, 44, 45, 46, 95, 126}
MAILTO == <<109, 97, 105, 108, 116, 111>>
CID == <<99, 105, 100>>
URN == <<117, 114, 110>>
Nice(t) ==
    LET j == Find(t, {COLON}, 1)
        rest == From(t, j + 1)
        slashes == StartsAt(rest, <<47, 47>>, 1)
        body == IF slashes THEN From(rest, 3) ELSE rest
        q == Find(body, {63, 35}, 1)
        path == Until(body, q)
    IN  /\ 2 <= j /\ j < Len(t) /\ \A i \in 1..(j - 1) : Lower(t[i])
        /\ slashes \/ Until(t, j) \in {MAILTO, CID, URN}
        /\ path # <<>> /\ Plain(path[1])
        /\ \A i \in 1..Len(path) : Plain(path[i]) \/ path[i] = 47
        /\ \A i \in 1..(Len(path) - 1) : ~(path[i] = 47 /\ path[i + 1] = 47)
        /\ q <= Len(body) => (q < Len(body) /\ \A i \in (q + 1)..Len(body) : Plain(body[i]))
RUri(t) == IF Nice(t) THEN Ok([uri |-> t]) ELSE Free

Read(kind, t) ==
    CASE kind = "int" -> RInt(t) [] kind = "float" -> RFloat(t) [] kind = "geo" -> RGeo(t)
      [] kind = "bool" -> RBool(t) [] kind = "bytes" -> RBytes(t) [] kind = "uri" -> RUri(t)
Write(kind, v) ==   \* one way of writing a value
    CASE kind = "int" -> WInt(v.int) [] kind = "float" -> WNum(v.float) [] kind = "geo" -> WGeo(v.geo)
      [] kind = "bool" -> WBool(v.bool) [] kind = "bytes" -> WBytes(v.bytes, 1) [] kind = "uri" -> v.uri
(* what may be written: no blanks, exponents or lower-case words *)
StrictForm(kind, t) ==
    CASE kind = "int" -> SInt(t) [] kind = "float" -> SNum(t) [] kind = "geo" -> SGeo(t)
      [] kind = "bool" -> SBool(t) [] kind = "bytes" -> RBytes(t).k = "ok" [] kind = "uri" -> TRUE
(* w stands for v after writing *)
Stands(kind, v, w) ==
    IF kind = "geo" /\ "geo" \in DOMAIN v /\ "geo" \in DOMAIN w
    THEN Near(v.geo[1], w.geo[1]) /\ Near(v.geo[2], w.geo[2])
    ELSE v = w \/ (kind = "uri" /\ "uri" \in DOMAIN v /\ ~Nice(v.uri))

(***************************************************************************)
(* A component holds one value or a list of values per slot.               *)
(***************************************************************************)
Parts(slot, t) == IF slot.many /\ slot.kind # "uri" THEN Split(t, {COMMA}) ELSE <<t>>
LineReads(slot, t) == LET p == Parts(slot, t) IN [i \in 1..Len(p) |-> Read(slot.kind, p[i])]
=============================================================================
