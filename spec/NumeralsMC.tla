------------------------------- MODULE NumeralsMC -------------------------------
(* Digits written one after another: laws of the readings; generation of digit patterns. *)
EXTENDS Numerals, FiniteSets, Json
CONSTANTS Alphabet, MaxLen
VARIABLE d
Init == \E x \in Alphabet : d = <<x>>
Next == Len(d) < MaxLen /\ d # <<0>> /\ \E x \in Alphabet : d' = Append(d, x)
Spec == Init /\ [][Next]_d
Zh == ReadZh(d)
Ja == ReadJa(d)
(* a reading denotes its number: what is understood is what was written *)
ExactZh == Understand("zh", Zh) = d
ExactJa == Understand("ja", Ja) = d
(* the rules of zeros and magnitude words *)
Grammar == d = <<0>> \/
  /\ Zh[1] # Zero /\ Zh[Len(Zh)] # Zero
  /\ \A k \in 1..(Len(Zh) - 1) : Zh[k] = Zero => DigitOf(Zh[k + 1]) > 0
  /\ \A k \in 1..Len(Ja) : Ja[k] \notin {Zero, DigJa[1]}
  /\ \A t \in {Zh, Ja} : \A k \in 1..(Len(t) - 1) : ~(DigitOf(t[k]) > 0 /\ DigitOf(t[k + 1]) > 0)
(* a zero word is said for every gap of zeros, except one that only ends a group when the next
   digit starts the group after it *)
Place(k) == Len(d) - k
Gap(k) == d[k] # 0 /\ \E j \in 1..(k - 2) : /\ d[j] # 0 /\ (\A m \in (j + 1)..(k - 1) : d[m] = 0)
                                        /\ ~(Place(k) % 4 = 3 /\ Place(j) \div 4 = Place(k) \div 4 + 1)
Zeros == d = <<0>> \/ Len(SelectSeq(Zh, LAMBDA c : c = Zero)) = Cardinality({k \in 1..Len(d) : Gap(k)})
(* written forms denote their number too: plain, and cut at a magnitude word *)
Cut(e, w) == IF Len(d) <= e THEN Ascii(d) ELSE LET hi == SubSeq(d, 1, Len(d) - e)  lo == Strip(SubSeq(d, Len(d) - e + 1, Len(d)))
             IN Ascii(hi) \o <<w>> \o (IF lo = <<0>> THEN <<>> ELSE Ascii(lo))
Written == Value(Ascii(d)) = d /\ Value(Cut(4, Wan)) = d /\ Value(Cut(8, YiZh)) = d
Emit == PrintT(<<"GEN", ToJson(d)>>)
===============================================================================
