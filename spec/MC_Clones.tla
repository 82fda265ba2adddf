----------------------------- MODULE MC_Clones ------------------------------
(* All histories of at most Depth clones and edits of the header's seed    *)
(* objects by the header's operations.                                     *)
EXTENDS Clones, Json, IOUtils

CONSTANTS Depth

Header == ndJsonDeserialize(IOEnv.VP_HEADER)[1]

VARIABLES seed, objs, hist
vars == <<seed, objs, hist>>

Init == /\ seed \in 1..Len(Header.seeds)
        /\ objs = <<Header.seeds[seed]>>
        /\ hist = <<>>
Ops == Header.ops[seed]
(* edits only matter once there is a second object, or just before it *)
Next == /\ Len(hist) < Depth
        /\ UNCHANGED seed
        /\ \/ \E i \in 1..Len(objs) :
                /\ Len(objs) < 3
                /\ objs' = Apply(objs, i, [k |-> "clone"])
                /\ hist' = Append(hist, <<i, 0>>)
           \/ \E i \in 1..Len(objs), j \in 1..Len(Ops) :
                /\ Len(objs) > 1 \/ Len(hist) = 0
                /\ Enabled(objs[i], Ops[j])
                /\ objs' = Apply(objs, i, Ops[j])
                /\ hist' = Append(hist, <<i, j>>)
Spec == Init /\ [][Next]_vars

Report == (Len(hist) > 0 /\ Len(objs) > 1) =>
    PrintT("VPJ" \o ToJson([seed |-> seed, hist |-> hist, objs |-> objs]))

(* only the object edited changes; a clone is its original at that moment *)
Independent == [][LET last == hist'[Len(hist')]
                  IN  /\ \A i \in 1..Len(objs) : (i # last[1] \/ last[2] = 0) => objs'[i] = objs[i]
                      /\ Len(objs') > Len(objs) => objs'[Len(objs')] = objs[last[1]]]_vars
=============================================================================
