------------------------------ MODULE ComponentsMC ------------------------------
(* The laws behind C19: a reading tells every component apart, and so does what is written; and the
   cases the implementation is tried on, one state each. *)
EXTENDS Components, Json
CONSTANTS Years, EveryDay, Gen
VARIABLE x
Days == IF EveryDay THEN 1..31 ELSE {1, 2, 9, 10, 11, 12, 13, 20, 22, 30, 31}
Minutes == IF EveryDay THEN 0..59 ELSE {0, 1, 5, 9, 10, 12, 20, 22, 30, 52, 59}
Seconds == {None, 0, 1, 2, 10, 20, 52, 59}
Date == {[Blanks EXCEPT !.y = y, !.mo = m, !.d = d] : y \in Years \cup {None}, m \in 1..12, d \in Days \cup {None}}
Clock == {[Blanks EXCEPT !.h = h, !.mi = m, !.s = s, !.noon = n] : h \in 0..24, m \in Minutes, s \in Seconds, n \in {"", "am", "pm"}}
Init == \E lang \in {"zh", "ja"} : x \in {[lang |-> lang, v |-> v] : v \in {w \in Date : ~(w.y = None /\ w.d = None)} \cup Clock}
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Told == Means(x.lang, Say(x.lang, x.v), x.v)
(* what is heard in a reading is all there was *)
OnlyOne == LET h == Heard(x.lang, Say(x.lang, x.v)) IN h # <<>> /\ Say(x.lang, h[1]) = Say(x.lang, x.v)
(* the parts written come back *)
WriteBack ==
  LET v == x.v IN
  IF v.h # None THEN x.lang = "zh" => ZhWrites(WriteTime([v EXCEPT !.noon = ""], TRUE, 58, <<>>) \o (CASE v.noon = "am" -> <<97, 46, 109, 46>> [] v.noon = "pm" -> <<112, 46, 109, 46>> [] OTHER -> <<>>), v)
  ELSE \A f \in {"ymd", "ym", "md"} : x.lang = "zh" /\ HasForm("zh", f, v) => ZhWrites(WriteDate(v, f, 47, TRUE, TRUE), v)
(* no two dates are written alike in the same order *)
DayFirst == \A p \in BOOLEAN : (x.v.d # None /\ x.v.y # None) =>
   LET q == Split(WriteDate(x.v, "dmy", 47, p, p), 47, <<>>) IN <<Num(q[1]), Num(q[2]), Num(q[3])>> = <<x.v.d, x.v.mo, x.v.y>>
Emit == Gen => PrintT(<<"GEN", ToJson(x)>>)
===============================================================================
