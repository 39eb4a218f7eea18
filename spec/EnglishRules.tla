------------------------------ MODULE EnglishRules ------------------------------
(* What English words say, and digits as code points: shared by the judges of C16, C18 and C19. *)
EXTENDS NumeralsEn
Cps(w) == CASE w = "thousand" -> <<116, 104, 111, 117, 115, 97, 110, 100>> [] w = "million" -> <<109, 105, 108, 108, 105, 111, 110>>
            [] w = "billion" -> <<98, 105, 108, 108, 105, 111, 110>> [] w = "trillion" -> <<116, 114, 105, 108, 108, 105, 111, 110>> [] OTHER -> <<>>
Ascii(d) == [k \in 1..Len(d) |-> d[k] + 48]
RECURSIVE Grouped(_)
Grouped(d) == IF Len(d) <= 3 THEN Ascii(d) ELSE Grouped(SubSeq(d, 1, Len(d) - 3)) \o <<44>> \o Ascii(SubSeq(d, Len(d) - 2, Len(d)))
Starts(ws, p) == Len(ws) >= Len(p) /\ SubSeq(ws, 1, Len(p)) = p
Ends(ws, p) == Len(ws) >= Len(p) /\ SubSeq(ws, Len(ws) - Len(p) + 1, Len(ws)) = p
Inside(ws, p, q) == IF Len(ws) >= Len(p) + Len(q) /\ Starts(ws, p) /\ Ends(ws, q) THEN SubSeq(ws, Len(p) + 1, Len(ws) - Len(q)) ELSE <<"?">>
Saying(ws, d) == Understand(ws) = d
ZeroWord(w) == w \in {"oh", "o", "zero"}
Decimals(ws, f) == Len(ws) = Len(f) /\ \A k \in 1..Len(f) : IF f[k] = 0 THEN ZeroWord(ws[k]) ELSE ws[k] = Ones[f[k] + 1]
NumberSaid(ws, d, f) ==
  IF f = <<>> THEN Saying(ws, d)
  ELSE \E k \in 1..Len(ws) : ws[k] = "point" /\ Saying(SubSeq(ws, 1, k - 1), d) /\ Decimals(SubSeq(ws, k + 1, Len(ws)), f)
OrdinalSaid(ws, d) == ws # <<>> /\ Saying([ws EXCEPT ![Len(ws)] = Cardinal(@)], d)
===============================================================================
