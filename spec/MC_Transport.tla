---------------------------- MODULE MC_Transport ----------------------------
(***************************************************************************)
(* All rewritings of small calendar texts by up to MaxOps steps, which     *)
(* must all stand for the same tree.                                       *)
(***************************************************************************)
EXTENDS Transport, Json, TLC, IOUtils

CONSTANTS MaxOps, Kinds
Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]
Bases == Header.bases

VARIABLES base, text, ops
vars == <<base, text, ops>>

Init == /\ base \in 1..Len(Bases) /\ text = Bases[base] /\ ops = <<>>
Results(k) == CASE k = "fold" -> Folds(text) [] k = "blank" -> Blanks(text)
                [] k = "ends" -> Ended(text) [] k = "flip" -> Flips(text)
(* letters are flipped before lines are folded or blank lines inserted *)
Ready(k) == k \in {"flip", "ends"} => \A i \in 1..Len(ops) : ops[i] \in {"flip", "ends"}
Next == /\ Len(ops) < MaxOps
        /\ \E k \in Kinds : /\ Ready(k)
                            /\ text' \in Results(k)
                            /\ ops' = Append(ops, k)
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

BaseTree == [b \in 1..Len(Bases) |-> TLCEval(ParseText(Bases[b]))]
Report == PrintT("VPJ" \o ToJson([b |-> base, t |-> text]))

SameTree ==
    LET r == ParseText(text)
        ls == PhysicalLines(text)
    IN  /\ r = BaseTree[base] /\ Chosen(r).ok
        /\ ParseLines(ls) = r
        /\ ParseLines([i \in 1..Len(ls) |-> ls[i] \o <<CR, LF>>]) = r
=============================================================================
