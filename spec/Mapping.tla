-------------------------------- MODULE Mapping --------------------------------
(* C12, model: a pipeline that splits a text into tokens, speaks each of them, and puts them
   together with blanks; it reports one mapping per token.  Checked: the reported list is Exact,
   any Exact list for the two texts rebuilds the output from the input, and none of the
   corruptions below is accepted as Exact. *)
EXTENDS MappingRules
CONSTANTS Pieces, Spoken, MaxTokens
VARIABLES in, out, ms, phase
vars == <<in, out, ms, phase>>
Init == in = <<>> /\ out = <<>> /\ ms = <<>> /\ phase = "run"
Token == /\ phase = "run" /\ Len(ms) < MaxTokens
         /\ \E w \in Pieces, v \in Spoken, keep \in BOOLEAN, gi \in {<<>>, <<32>>}, go \in {<<>>, <<32>>} :
              LET s == IF keep THEN w ELSE v
                  a == Len(in) + Len(gi)  b == Len(out) + Len(go) IN
              /\ in' = in \o gi \o w /\ out' = out \o go \o s
              /\ ms' = Append(ms, <<Kind(w, s), a, a + Len(w), b, b + Len(s), w, s>>)
         /\ UNCHANGED phase
Tail2 == phase = "run" /\ phase' = "done" /\ (\E gi \in {<<>>, <<32>>} : in' = in \o gi) /\ UNCHANGED <<out, ms>>
Next == Token \/ Tail2
Spec == Init /\ [][Next]_vars

ReportIsExact == phase = "done" => Exact(ms, in, out)
Rebuilds == phase = "done" => NoBlanks(Rebuild(ms, in, 1, 0)) = NoBlanks(out)
(* corruptions of the list that change what it says *)
Dropped(k) == SubSeq(ms, 1, k - 1) \o SubSeq(ms, k + 1, Len(ms))
Moved(k, f, d) == [ms EXCEPT ![k][f] = @ + d]
Relabelled(k, l) == [ms EXCEPT ![k][1] = l]
Swapped(k) == [ms EXCEPT ![k] = ms[k + 1], ![k + 1] = ms[k]]
Caught == phase = "done" =>
  /\ \A k \in 1..Len(ms), f \in 2..5, d \in {-1, 1} : ~Exact(Moved(k, f, d), in, out)
  /\ \A k \in 1..Len(ms), l \in {"equal", "delete", "replace"} : l # ms[k][1] => ~Exact(Relabelled(k, l), in, out)
  /\ \A k \in 1..(Len(ms) - 1) : ~Exact(Swapped(k), in, out)
  /\ \A k \in 1..Len(ms) : ~Exact(Dropped(k), in, out)
===============================================================================
