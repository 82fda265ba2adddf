------------------------------- MODULE Clones -------------------------------
(***************************************************************************)
(* A growing set of objects under clone and edits (C20).                   *)
(* An object is a value                                                    *)
(*   [cls, a |-> [attribute |-> <<value, ...>>], xn, x |-> <<item, ...>>,  *)
(*    p |-> [key |-> [m |-> BOOLEAN, ps |-> <<[param |-> <<string>>]>>]]]  *)
(* xn is the name of its list x of unknown properties, p its extra         *)
(* parameters (m: one set per value).  A content line has its parameters   *)
(* under the single key "params".  As objects are values here, an edit of  *)
(* one never shows in another: independence is built in, and the code is   *)
(* compared with it.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
NoParams == [j \in {} |-> <<>>]

EditList(s, op) ==
    CASE op.how = "append" -> Append(s, op.vals[1])
      [] op.how = "extend" -> s \o op.vals
      [] op.how = "insert" -> InsertAt(s, op.at, op.vals[1])
      [] op.how = "delete" -> RemoveAt(s, op.at)
      [] op.how = "replace" -> ReplaceAt(s, op.at, op.vals[1])
      [] op.how = "clear" -> <<>>
      [] op.how = "reverse" -> Reverse(s)

EditParams(p, op) ==
    CASE op.how = "set" -> Put(p, op.key, op.entry)
      [] op.how = "delete" -> Drop(p, op.key)
      [] op.how = "clear" -> NoParams
      (* inside: one parameter of one of the sets *)
      [] op.how = "param" -> [p EXCEPT ![op.key].ps[op.at] = Put(@, op.pn, op.pvals)]
      [] op.how = "noparam" -> [p EXCEPT ![op.key].ps[op.at] = Drop(@, op.pn)]
      [] op.how = "value" -> [p EXCEPT ![op.key].ps[op.at][op.pn] = @ \o op.pvals]
      [] op.how = "push" -> [p EXCEPT ![op.key].ps = Append(@, Put(NoParams, op.pn, op.pvals))]

MERGE == "__merge_next"
Stripped(o, op) ==
    [o EXCEPT !.x = IF op.props THEN <<>> ELSE @,
              !.p = IF op.params THEN NoParams
                    ELSE IF op.merging
                    THEN [k \in DOMAIN @ |-> IF @[k].m
                                             THEN [@[k] EXCEPT !.ps = [i \in 1..Len(@) |-> Drop(@[i], MERGE)]]
                                             ELSE @[k]]
                    ELSE @]

Edited(o, op) ==
    CASE op.k = "set" -> [o EXCEPT !.a[op.n] = op.vals]
      [] op.k = "list" -> [o EXCEPT !.a[op.n] = EditList(@, op)]
      [] op.k = "extra" -> [o EXCEPT !.x = EditList(@, op)]
      [] op.k = "rename" -> [o EXCEPT !.xn = op.to]
      [] op.k = "params" -> [o EXCEPT !.p = EditParams(@, op)]
      [] op.k = "strip" -> Stripped(o, op)

Enabled(o, op) ==
    LET inList(s) == CASE op.how \in {"delete", "replace"} -> op.at <= Len(s)
                       [] op.how = "insert" -> op.at <= Len(s) + 1
                       [] OTHER -> TRUE
    IN  CASE op.k = "list" -> inList(o.a[op.n])
          [] op.k = "extra" -> inList(o.x)
          [] op.k = "params" ->
                CASE op.how \in {"set", "clear"} -> TRUE
                  [] op.how = "delete" -> op.key \in DOMAIN o.p
                  [] op.how = "push" -> op.key \in DOMAIN o.p /\ o.p[op.key].m
                  [] OTHER -> /\ op.key \in DOMAIN o.p
                              /\ op.at <= Len(o.p[op.key].ps)
                              /\ op.how # "param" => op.pn \in DOMAIN o.p[op.key].ps[op.at]
          [] OTHER -> TRUE

Apply(objs, i, op) == IF op.k = "clone" THEN Append(objs, objs[i])
                      ELSE [objs EXCEPT ![i] = Edited(@, op)]
=============================================================================
