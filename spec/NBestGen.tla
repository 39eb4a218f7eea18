------------------------------- MODULE NBestGen -------------------------------
(* Random weighted relations as building steps, printed for replay on real graphs: taggings
   with possibly several weights, alternatives with possibly several weights.  The first tagging gets most alternatives. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NOuts, MaxTags
VARIABLES steps, tags
W == {0, 1, 2, 3, 4, 5, 7, 9, 12, -1, -3, -8}
Forms == 1..4
Init == steps = <<>> /\ tags = 0
AddTag == tags < MaxTags /\ tags' = tags + 1 /\ \E w \in W, f \in Forms : steps' = Append(steps, [what |-> "tag", t |-> tags + 1, o |-> f, w |-> w])
AgainTag == tags > 0 /\ UNCHANGED tags /\ \E t \in 1..tags, w \in W : steps' = Append(steps, [what |-> "again", t |-> t, o |-> 0, w |-> w])
AddOut == tags > 0 /\ UNCHANGED tags /\ \E t \in 1..tags, o \in 1..NOuts, w \in W : steps' = Append(steps, [what |-> "out", t |-> t, o |-> o, w |-> w])
AddFirst == tags > 0 /\ UNCHANGED tags /\ \E o \in 1..NOuts, w \in W : steps' = Append(steps, [what |-> "out", t |-> 1, o |-> o, w |-> w])
Next == AddTag \/ AgainTag \/ AddOut \/ (MaxTags <= 6 /\ AddOut) \/ (MaxTags > 6 /\ AddFirst)
Spec == Init /\ [][Next]_<<steps, tags>>
Stop == Len(steps) < Depth
Emit == Len(steps) < Depth \/ PrintT(<<"GEN", ToJson(steps)>>)
===============================================================================
