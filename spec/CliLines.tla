-------------------------------- MODULE CliLines --------------------------------
(* Input streams growing character by character: laws of the cutting into lines (C21), and
   generation of streams. *)
EXTENDS CliRules, Json
CONSTANTS MaxLen
VARIABLE t
Alphabet == {97, 10, 13, 32, 9, 11, 12, 133, 8232, 65279, 20010, 34, 128512}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
L == Lines(t)
Ends == {k \in 1..Len(t) : t[k] = 10 \/ (t[k] = 13 /\ ~(k < Len(t) /\ t[k + 1] = 10))}
NoEnd == \A k \in 1..Len(L) : \A m \in 1..Len(L[k]) : L[k][m] \notin {10, 13}
Count == Len(L) = Cardinality(Ends) + (IF t = <<>> \/ t[Len(t)] \in {10, 13} THEN 0 ELSE 1)
AllElse == FoldLeft(LAMBDA a, x : a \o x, <<>>, L) = SelectSeq(t, LAMBDA c : c \notin {10, 13})
(* the two readings differ only where a CR stands alone *)
LoneCr == \E k \in 1..Len(t) : t[k] = 13 /\ ~(k < Len(t) /\ t[k + 1] = 10) /\ ~(k = Len(t))
Agree == ~LoneCr => (LinesLf(t) = L)
Emit == PrintT(<<"GEN", ToJson(t)>>)
===============================================================================
