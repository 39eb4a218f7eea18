------------------------------ MODULE NumeralsEnMC ------------------------------
(* Digits written one after another: laws of the English readings. *)
EXTENDS NumeralsEn, FiniteSets, Json
CONSTANTS Alphabet, MaxLen
VARIABLE d
Init == \E x \in Alphabet : d = <<x>>
Next == Len(d) < MaxLen /\ d # <<0>> /\ \E x \in Alphabet : d' = Append(d, x)
Spec == Init /\ [][Next]_d
W == ReadEn(d, FALSE)
(* a reading denotes its number, with and without "and" *)
Exact == Understand(W) = d /\ Understand(ReadEn(d, TRUE)) = d
(* nothing but "and" is optional *)
OneReading == SelectSeq(ReadEn(d, TRUE), LAMBDA w : w # "and") = W
(* numbers that differ are read differently: dropping the last word changes what is understood *)
Telling == Len(W) > 1 => Understand(SubSeq(W, 1, Len(W) - 1)) # d
Ordinals == LET o == OrdinalWords(W)[Len(W)] IN o # "" /\ Cardinal(o) = W[Len(W)]
(* a year in pairs is not mistaken for another number *)
Years == Len(d) = 4 => Understand(Year(d)) \in {Wrong, d}
Emit == PrintT(<<"GEN", ToJson(d)>>)
===============================================================================
