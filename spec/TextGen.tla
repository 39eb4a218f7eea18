-------------------------------- MODULE TextGen --------------------------------
(* Random texts as sequences of pieces, for the shipped pipelines.  A piece has a kind; the
   harness picks the concrete atom of that kind and language.  In spaced languages the pieces
   are words separated by spaces, and only punctuation may be glued to its neighbours. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Spaced, Depth
VARIABLE text
Kinds == {"num", "date", "unit", "word", "char", "punct", "odd", "rule"}
Seps == {"", " ", "  ", "tab"}
Last == IF text = <<>> THEN "start" ELSE text[Len(text)].k
Init == text = <<>>
Free == \E k \in Kinds, s \in {"", "", " "} : text' = Append(text, [k |-> k, s |-> s])
Glued(a, b) == a = "punct" \/ b = "punct" \/ a = "start"
Words == \E k \in Kinds \ {"odd"}, s \in {"", " ", "  "} :
            /\ (IF s = "" THEN Glued(Last, k) ELSE TRUE)
            /\ (Last = "start" => s = "")
            /\ text' = Append(text, [k |-> k, s |-> s])
Next == IF Spaced THEN Words ELSE Free
Spec == Init /\ [][Next]_text
Stop == Len(text) < Depth
Emit == text = <<>> \/ PrintT(<<"GEN", ToJson(text)>>)
===============================================================================
