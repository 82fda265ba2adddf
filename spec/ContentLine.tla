---------------------------- MODULE ContentLine -----------------------------
(***************************************************************************)
(* One property line (C07).  A line is                                     *)
(*   [name |-> text, params |-> <<[n |-> text, vals |-> <<[q, v], ...>>],  *)
(*    ...>>, value |-> text]                                               *)
(* with q telling whether a parameter value is quoted.                     *)
(***************************************************************************)
EXTENDS Text

Line(n, p, v) == [name |-> n, params |-> p, value |-> v]

(* RFC 6868 *)
EscParamChar(c) == CASE c = DQ -> <<CARET, APOS>>
                     [] c = CARET -> <<CARET, CARET>>
                     [] c = LF -> <<CARET, Cn>>
                     [] c = CR -> <<>>
                     [] OTHER -> <<c>>
EscParam(t) == Concat([i \in 1..Len(t) |-> EscParamChar(t[i])])

RECURSIVE UnescParamFrom(_, _, _)
UnescParamFrom(t, i, acc) ==
    IF i > Len(t) THEN Result(acc)
    ELSE IF t[i] # CARET THEN UnescParamFrom(t, i + 1, Append(acc, t[i]))
    ELSE IF i = Len(t) THEN Failure
    ELSE CASE t[i + 1] = Cn    -> UnescParamFrom(t, i + 2, Append(acc, LF))
           [] t[i + 1] = CARET -> UnescParamFrom(t, i + 2, Append(acc, CARET))
           [] t[i + 1] = APOS  -> UnescParamFrom(t, i + 2, Append(acc, DQ))
           [] OTHER -> Failure
UnescParam(t) == UnescParamFrom(t, 1, <<>>)

SetParam(params, n, vals) ==      \* a repeated parameter replaces the first
    IF \E k \in 1..Len(params) : params[k].n = n
    THEN [k \in 1..Len(params) |->
            IF params[k].n = n THEN [n |-> n, vals |-> vals] ELSE params[k]]
    ELSE Append(params, [n |-> n, vals |-> vals])

(***************************************************************************)
(* Values of one parameter, from index i; yields the values and the index  *)
(* of the ':' or ';' that ends them.                                       *)
(***************************************************************************)
RECURSIVE ParseVals(_, _, _)
ParseVals(t, i, acc) ==
    IF i <= Len(t) /\ t[i] = DQ
    THEN LET j == Find(t, {DQ}, i + 1)
             u == UnescParam(SubSeq(t, i + 1, j - 1))
         IN  IF j > Len(t) \/ ~u.ok \/ j = Len(t) THEN Failure
             ELSE LET vs == Append(acc, [q |-> TRUE, v |-> u.v])
                  IN  IF t[j + 1] \in {COLON, SEMI} THEN Result([vals |-> vs, at |-> j + 1])
                      ELSE IF t[j + 1] = COMMA THEN ParseVals(t, j + 2, vs)
                      ELSE Failure
    ELSE LET j == Find(t, {COMMA, COLON, SEMI}, i)
             u == UnescParam(SubSeq(t, i, j - 1))
         IN  IF j > Len(t) \/ ~u.ok THEN Failure
             ELSE IF t[j] = COMMA THEN ParseVals(t, j + 1, Append(acc, [q |-> FALSE, v |-> u.v]))
             ELSE IF j = i THEN Failure            \* empty last value
             ELSE Result([vals |-> Append(acc, [q |-> FALSE, v |-> u.v]), at |-> j])

RECURSIVE ParseRest(_, _, _, _)
ParseRest(t, i, name, params) ==      \* t[i] is ':' or ';'
    IF t[i] = COLON THEN Result(Line(name, params, From(t, i + 1)))
    ELSE LET j == Find(t, {EQ, COLON, SEMI}, i + 1)
         IN  IF j > Len(t) \/ t[j] # EQ THEN Failure
             ELSE LET vs == ParseVals(t, j + 1, <<>>)
                  IN  IF ~vs.ok THEN Failure
                      ELSE ParseRest(t, vs.v.at, name,
                                     SetParam(params, SubSeq(t, i + 1, j - 1), vs.v.vals))

ParseLine(t) ==
    LET i == Find(t, {COLON, SEMI}, 1)
    IN  IF i > Len(t) THEN Failure
        ELSE ParseRest(t, i, Upper(Until(t, i)), <<>>)

(***************************************************************************)
(* Writing.                                                                *)
(***************************************************************************)
MustQuote(v) == v = <<>> \/ HasAny(v, {COLON, SEMI, COMMA})
WriteVal(x) == IF x.q \/ MustQuote(x.v) THEN <<DQ>> \o EscParam(x.v) \o <<DQ>> ELSE EscParam(x.v)
WriteParam(p) == <<SEMI>> \o p.n \o <<EQ>>
                 \o Join([k \in 1..Len(p.vals) |-> WriteVal(p.vals[k])], <<COMMA>>)
WriteLine(l) == l.name \o Concat([k \in 1..Len(l.params) |-> WriteParam(l.params[k])])
                \o <<COLON>> \o l.value

(* equality of lines ignores quoting *)
Plain(l) == [l EXCEPT !.params = [k \in 1..Len(l.params) |->
               [n |-> l.params[k].n,
                vals |-> [i \in 1..Len(l.params[k].vals) |-> l.params[k].vals[i].v]]]]
(* quoting that may not get lost *)
QuotedWhereNeeded(l, w) ==
    \A k \in 1..Len(l.params) : \A i \in 1..Len(l.params[k].vals) :
        LET x == l.params[k].vals[i]
        IN  (x.q \/ HasAny(x.v, {COLON, SEMI, COMMA})) => w.params[k].vals[i].q
=============================================================================
