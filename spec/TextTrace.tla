----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the text codecs.  The state is the stack of line      *)
(* widths set for enclosing blocks.                                        *)
(***************************************************************************)
EXTENDS TextValue, ICalText, TraceRun

MyStart(s) == <<s.width>>

Width0(s) == s[Len(s)]

Same(ev, r) == ev.ok = r.ok /\ (r.ok => ev.res = r.v)

(* an outcome that must be the result, or an error of the right kind *)
Outcome(s, ev, r, what, kind) ==
    IF ev.ok # r.ok
    THEN Bad(what \o (IF r.ok THEN " was rejected" ELSE " was accepted"), r.v)
    ELSE IF r.ok THEN IF ev.res = r.v THEN Good(s) ELSE Bad("wrong result of " \o what, r.v)
    ELSE IF ev.exc \in kind THEN Good(s)
    ELSE Bad(what \o " raised the wrong kind of error: " \o ev.exc, kind)

VE == {"ValueError"}
PE == {"ParseError"}

(* parameter texts that survive writing: no carriage return *)
ExplainWrite(s, ev) ==
    LET p == ParseLine(ev.out)
    IN  IF ~ev.ok THEN Bad("writing a content line raised", ev.exc)
        ELSE IF ~p.ok THEN Bad("a written content line is malformed", ev.out)
        ELSE IF Plain(p.v) # Plain(ev.l) THEN Bad("a written content line has another meaning", p.v)
        ELSE IF ~QuotedWhereNeeded(ev.l, p.v) THEN Bad("a parameter value lost its quotes", p.v)
        ELSE IF ~(ev.back.ok /\ Plain(ev.back.res) = Plain(ev.l))
             THEN Bad("a written content line is not read back", ev.back)
        ELSE IF ~ev.eq THEN Bad("a content line read back does not equal the original", ev.back)
        ELSE Good(s)

ExplainFold(s, ev) ==
    LET c == FoldedRight(ev.t, Width0(s), ev.res)
    IN  IF ~ev.ok THEN Bad("serializing a line raised", ev.exc)
        ELSE IF c # "" THEN Bad(c, [width |-> Width0(s)])
        ELSE Good(s)

(* a whole tree: folded text whose lines are those of the tree *)
ExplainTree(s, ev) ==
    LET u == UnfoldText(ev.out)
        ls == [i \in 1..Len(u.v) |-> ParseLine(u.v[i])]
        want == FlattenAll(ev.items, 1)
    IN  IF ~ev.ok THEN Bad("writing a component raised", ev.exc)
        ELSE IF ~u.ok \/ ~CrlfOnly(ev.out) THEN Bad("a written component is not a sequence of lines", "")
        ELSE IF \E i \in 1..Len(ls) : ~ls[i].ok THEN Bad("a written component has a malformed line", ls)
        ELSE IF [i \in 1..Len(ls) |-> Plain(ls[i].v)] # [i \in 1..Len(want) |-> Plain(want[i])]
             THEN Bad("a written component has other lines than its items", want)
        ELSE IF ~ev.back.ok THEN Bad("a written component is not read back", ev.back)
        ELSE IF PlainItems(ev.back.res) # PlainItems(ev.items)
             THEN Bad("a component read back differs", ev.back)
        ELSE IF ~ev.eq THEN Bad("a component read back does not equal the original", "")
        ELSE Good(s)

MyExplain(s, ev) ==
    CASE ev.op = "escape"   -> Outcome(s, ev, Result(Escape(ev.v)), "escaping a text", VE)
      [] ev.op = "unescape" -> Outcome(s, ev, Unescape(ev.v), "unescaping a text", VE)
      [] ev.op = "join"     -> Outcome(s, ev, Result(JoinList(ev.v)), "joining a list", VE)
      [] ev.op = "decode"   -> Outcome(s, ev, Values(ev.v), "decoding a list", VE)
      [] ev.op = "values"   -> Outcome(s, ev, Result(ev.v), "joining and splitting a list", VE)
      [] ev.op = "parse"    -> Outcome(s, ev, ParseLine(ev.v), "parsing a content line", PE)
      [] ev.op = "write"    -> ExplainWrite(s, ev)
      [] ev.op = "text"     -> Outcome(s, ev, ParseText(ev.v), "parsing a text", PE \cup VE)
      [] ev.op = "lines"    -> Outcome(s, ev, ParseLines(ev.v), "parsing lines", PE \cup VE)
      [] ev.op = "tree"     -> ExplainTree(s, ev)
      [] ev.op = "fold"     -> ExplainFold(s, ev)
      [] ev.op = "enter"    -> Good(Append(s, ev.w))
      [] ev.op = "leave"    -> Good(SubSeq(s, 1, Len(s) - 1))
=============================================================================
