------------------------------- MODULE NumeralsEn -------------------------------
(* Written numbers and their readings in English (C16, C18).  A number is a sequence of decimal
   digits without leading zeros, a reading a sequence of words. *)
EXTENDS Integers, Sequences, TLC

Ones == <<"zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve",
          "thirteen", "fourteen", "fifteen", "sixteen", "seventeen", "eighteen", "nineteen">>
Tens == <<"ten", "twenty", "thirty", "forty", "fifty", "sixty", "seventy", "eighty", "ninety">>
Scales == <<"thousand", "million", "billion", "trillion", "quadrillion", "quintillion", "sextillion">>
Ordinal(w) == CASE w = "one" -> "first" [] w = "two" -> "second" [] w = "three" -> "third" [] w = "five" -> "fifth" [] w = "eight" -> "eighth"
                [] w = "nine" -> "ninth" [] w = "twelve" -> "twelfth" [] w = "twenty" -> "twentieth" [] w = "thirty" -> "thirtieth"
                [] w = "forty" -> "fortieth" [] w = "fifty" -> "fiftieth" [] w = "sixty" -> "sixtieth" [] w = "seventy" -> "seventieth"
                [] w = "eighty" -> "eightieth" [] w = "ninety" -> "ninetieth" [] w = "four" -> "fourth" [] w = "six" -> "sixth" [] w = "seven" -> "seventh"
                [] w = "zero" -> "zeroth" [] w = "ten" -> "tenth" [] w = "eleven" -> "eleventh" [] w = "thirteen" -> "thirteenth" [] w = "fourteen" -> "fourteenth"
                [] w = "fifteen" -> "fifteenth" [] w = "sixteen" -> "sixteenth" [] w = "seventeen" -> "seventeenth" [] w = "eighteen" -> "eighteenth" [] w = "nineteen" -> "nineteenth"
                [] w = "hundred" -> "hundredth" [] w = "thousand" -> "thousandth" [] w = "million" -> "millionth" [] w = "billion" -> "billionth" [] w = "trillion" -> "trillionth"
                [] w = "quadrillion" -> "quadrillionth" [] w = "quintillion" -> "quintillionth" [] w = "sextillion" -> "sextillionth" [] OTHER -> ""
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d
Pad(d, n) == [k \in 1..n |-> IF k > n - Len(d) THEN d[k - (n - Len(d))] ELSE 0]

-------------------------------------------------------------------------------
(* reading: group by group; how many words and which is fixed but for "and" *)
Two(t, o) == IF t = 0 THEN (IF o = 0 THEN <<>> ELSE <<Ones[o + 1]>>)
             ELSE IF t = 1 THEN <<Ones[11 + o]>> ELSE <<Tens[t]>> \o (IF o = 0 THEN <<>> ELSE <<Ones[o + 1]>>)
Group(h, t, o, and) == (IF h = 0 THEN <<>> ELSE <<Ones[h + 1], "hundred">>)
                       \o (IF h # 0 /\ and /\ <<t, o>> # <<0, 0>> THEN <<"and">> ELSE <<>>) \o Two(t, o)
RECURSIVE Groups(_, _, _)
Groups(d, g, and) ==      \* d padded to a multiple of three; g groups remain
  IF d = <<>> THEN <<>>
  ELSE LET h == d[1]  t == d[2]  o == d[3]  w == Group(h, t, o, and) IN
       (IF w = <<>> THEN <<>> ELSE w \o (IF g = 1 THEN <<>> ELSE <<Scales[g - 1]>>)) \o Groups(SubSeq(d, 4, Len(d)), g - 1, and)
ReadEn(d, and) == IF d = <<0>> THEN <<"zero">> ELSE LET n == (Len(d) + 2) \div 3 IN Groups(Pad(d, 3 * n), n, and)
Words == {Ones[k] : k \in 1..20} \cup {Tens[k] : k \in 2..9} \cup {"hundred"} \cup {Scales[k] : k \in 1..7}
Cardinal(w) == LET s == {x \in Words : Ordinal(x) = w} IN IF s = {} THEN "" ELSE CHOOSE x \in s : TRUE
OrdinalWords(w) == [w EXCEPT ![Len(w)] = Ordinal(@)]
Digitwise(f) == [k \in 1..Len(f) |-> IF f[k] = 0 THEN "oh" ELSE Ones[f[k] + 1]]
(* four plain digits may be a year: pairs, with "hundred" or "oh" where the second is short *)
Year(d) == Two(d[1], d[2]) \o (IF <<d[3], d[4]>> = <<0, 0>> THEN <<"hundred">> ELSE IF d[3] = 0 THEN <<"oh", Ones[d[4] + 1]>> ELSE Two(d[3], d[4]))

-------------------------------------------------------------------------------
(* understanding: places filled in from the words alone.  s is where in the group we are *)
OneOf(w) == CASE w = "one" -> 1 [] w = "two" -> 2 [] w = "three" -> 3 [] w = "four" -> 4 [] w = "five" -> 5 [] w = "six" -> 6 [] w = "seven" -> 7
              [] w = "eight" -> 8 [] w = "nine" -> 9 [] OTHER -> 0
TeenOf(w) == CASE w = "ten" -> 0 [] w = "eleven" -> 1 [] w = "twelve" -> 2 [] w = "thirteen" -> 3 [] w = "fourteen" -> 4 [] w = "fifteen" -> 5
               [] w = "sixteen" -> 6 [] w = "seventeen" -> 7 [] w = "eighteen" -> 8 [] w = "nineteen" -> 9 [] OTHER -> -1
TenOf(w) == CASE w = "twenty" -> 2 [] w = "thirty" -> 3 [] w = "forty" -> 4 [] w = "fifty" -> 5 [] w = "sixty" -> 6 [] w = "seventy" -> 7
              [] w = "eighty" -> 8 [] w = "ninety" -> 9 [] OTHER -> 0
ScaleOf(w) == CASE w = "thousand" -> 1 [] w = "million" -> 2 [] w = "billion" -> 3 [] w = "trillion" -> 4 [] w = "quadrillion" -> 5
                [] w = "quintillion" -> 6 [] w = "sextillion" -> 7 [] OTHER -> 0
Blank == [ok |-> TRUE, place |-> [p \in 0..23 |-> 0], h |-> 0, t |-> 0, o |-> 0, s |-> "start", base |-> 8]
Fails(st) == [st EXCEPT !.ok = FALSE]
Hear(st, w) ==
  IF ~st.ok THEN st
  ELSE IF w = "and" THEN IF st.s \in {"hundred", "scale"} THEN [st EXCEPT !.s = "and"] ELSE Fails(st)
  ELSE IF OneOf(w) > 0 THEN
    IF st.s \in {"one", "done"} THEN Fails(st)
    ELSE [st EXCEPT !.o = OneOf(w), !.s = IF st.s \in {"start", "scale"} THEN "one" ELSE "done"]
  ELSE IF TeenOf(w) >= 0 THEN
    IF st.s \in {"one", "ten", "done"} THEN Fails(st) ELSE [st EXCEPT !.t = 1, !.o = TeenOf(w), !.s = "done"]
  ELSE IF TenOf(w) > 0 THEN
    IF st.s \in {"one", "ten", "done"} THEN Fails(st) ELSE [st EXCEPT !.t = TenOf(w), !.s = "ten"]
  ELSE IF w = "hundred" THEN
    IF st.s # "one" THEN Fails(st) ELSE [st EXCEPT !.h = st.o, !.o = 0, !.s = "hundred"]
  ELSE IF ScaleOf(w) > 0 THEN
    \* a thousand at the start may go without its one
    LET bare == st.s = "start" /\ w = "thousand"  e == 3 * ScaleOf(w) IN
    IF ScaleOf(w) >= st.base \/ (~bare /\ st.s \in {"start", "scale", "and"}) THEN Fails(st)
    ELSE [st EXCEPT !.place = [p \in 0..23 |-> CASE p = e + 2 -> st.h [] p = e + 1 -> st.t [] p = e -> IF bare THEN 1 ELSE st.o [] OTHER -> st.place[p]],
                    !.h = 0, !.t = 0, !.o = 0, !.s = "scale", !.base = ScaleOf(w)]
  ELSE Fails(st)
RECURSIVE HearAll(_, _, _)
HearAll(ws, k, st) == IF k > Len(ws) THEN st ELSE HearAll(ws, k + 1, Hear(st, ws[k]))
Wrong == <<-1>>
Understand(ws) ==
  IF ws = <<"zero">> THEN <<0>>
  ELSE LET st == HearAll(ws, 1, Blank) IN
       IF ~st.ok \/ st.s \in {"start", "and"} THEN Wrong
       ELSE Strip([k \in 1..24 |-> CASE k = 22 -> st.h [] k = 23 -> st.t [] k = 24 -> st.o [] OTHER -> st.place[24 - k]])
===============================================================================
