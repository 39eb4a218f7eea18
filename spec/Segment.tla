-------------------------------- MODULE Segment --------------------------------
(* C14, model: a tagger that walks over the text, putting every character either into a field or
   - whitespace between tokens, one separator inside a token - nowhere.  Checked: whatever it
   writes, Segments accepts; and Segments rejects fields that dropped, repeated, reordered or
   altered a written character (except between equal characters). *)
EXTENDS SegmentRules
CONSTANTS MaxLen
VARIABLES text, fields, phase
vars == <<text, fields, phase>>
Chars == {97, 98, Dash, Space}
Names == {T("date"), T("char")}
Init == text = <<>> /\ fields = <<>> /\ phase = "walk"
Write(c) == text' = Append(text, c)
(* a new token *)
Open == \E n \in Names, c \in Chars \ {Space, Dash} : Write(c) /\ fields' = Append(fields, [n |-> n, k |-> T("year"), v |-> <<c>>, first |-> TRUE])
(* the current field goes on *)
More == fields # <<>> /\ (IF text # <<>> THEN text[Len(text)] \notin {Space, Dash} ELSE FALSE) /\
        \E c \in {97, 98} : Write(c) /\ fields' = [fields EXCEPT ![Len(fields)].v = Append(@, c)]
(* a separator and the next field of the same token *)
Next2 == /\ fields # <<>> /\ (IF fields # <<>> THEN fields[Len(fields)].n = T("date") ELSE FALSE)
         /\ \E c \in {97, 98} : text' = text \o <<Dash, c>> /\ fields' = Append(fields, [n |-> T("date"), k |-> T("day"), v |-> <<c>>, first |-> FALSE])
Gap == Write(Space) /\ UNCHANGED fields
Walk == phase = "walk" /\ Len(text) < MaxLen /\ (Open \/ More \/ Next2 \/ Gap) /\ UNCHANGED phase
Stop == phase = "walk" /\ phase' = "done" /\ UNCHANGED <<text, fields>>
Next == Walk \/ Stop
Spec == Init /\ [][Next]_vars
Faithful == phase = "done" => Segments(text, fields)
Drop(k) == SubSeq(fields, 1, k - 1) \o SubSeq(fields, k + 1, Len(fields))
Alter(k, c) == [fields EXCEPT ![k].v = [@ EXCEPT ![1] = c]]
Cut(k) == [fields EXCEPT ![k].v = Tail(@)]
Twice(k) == SubSeq(fields, 1, k) \o SubSeq(fields, k, Len(fields))
Strict == phase = "done" => \A k \in 1..Len(fields) :
  /\ ~Segments(text, Drop(k)) /\ ~Segments(text, Alter(k, 99)) /\ ~Segments(text, Cut(k)) /\ ~Segments(text, Twice(k))
  /\ \A m \in 1..Len(fields) : fields[k].v[1] # fields[m].v[1] => ~Segments(text, [fields EXCEPT ![k].v = fields[m].v, ![m].v = fields[k].v]) \/ fields[k].v = fields[m].v
===============================================================================
