----------------------------- MODULE ComponentsEnMC -----------------------------
(* The laws behind the English part of C19: what is said of a date or time is heard as that date or
   time and as no other; and the cases the implementation is tried on. *)
EXTENDS ComponentsEn, Json
CONSTANTS Years, Days, Minutes, Gen
VARIABLE x
Dates == {d \in [kind : {"date"}, y : Years \cup {None}, mo : 1..12, d : Days \cup {None}] : ~(d.y = None /\ d.d = None)}
Times == [kind : {"time"}, h : 0..23, mi : Minutes, s : {None, 0, 1, 2, 12, 59}, noon : {"", "am", "pm"}, zone : {"", "est"}]
Init == x \in Dates \cup Times
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
SayYear(y) == LET a == y \div 100  b == y % 100 IN SayTwo(a) \o (CASE b = 0 -> <<"hundred">> [] b < 10 -> <<"oh", Ones[b + 1]>> [] OTHER -> SayTwo(b))
SayOrd(d) == OrdinalWords(SayTwo(d))
SayDate(v) == (IF v.d = None THEN <<>> ELSE <<"the">> \o SayOrd(v.d) \o <<"of">>) \o <<Months[v.mo]>> \o (IF v.y = None THEN <<>> ELSE SayYear(v.y))
SayMonthFirst(v) == <<Months[v.mo]>> \o (IF v.d = None THEN <<>> ELSE SayOrd(v.d)) \o (IF v.y = None THEN <<>> ELSE SayYear(v.y))
SayTime(v) == (IF v.s # None THEN SayTwo(v.h) \o <<Unit(v.h, "hour")>> \o SayTwo(v.mi) \o <<Unit(v.mi, "minute"), "and">> \o SayTwo(v.s) \o <<Unit(v.s, "second")>>
               ELSE SayTwo(v.h) \o (CASE v.mi = 0 -> (IF v.noon = "" THEN <<"o'clock">> ELSE <<>>) [] v.mi < 10 -> <<"o", Ones[v.mi + 1]>> [] OTHER -> SayTwo(v.mi)))
              \o Tailed(<<>>, v)
Told == IF x.kind = "date" THEN DateSaid(SayDate(x), x) /\ DateSaid(SayMonthFirst(x), x) ELSE TimeSaid(SayTime(x), x)
(* nothing close by is heard in the same words *)
Others == IF x.kind = "date" THEN {[x EXCEPT !.d = d] : d \in Days \cup {None}} \cup {[x EXCEPT !.mo = m] : m \in 1..12} \cup {[x EXCEPT !.y = y] : y \in Years \cup {None}}
          ELSE {[x EXCEPT !.h = h] : h \in 0..23} \cup {[x EXCEPT !.mi = m] : m \in Minutes} \cup {[x EXCEPT !.s = s] : s \in {None, 0, 1, 2, 12, 59}} \cup {[x EXCEPT !.noon = n] : n \in {"", "am", "pm"}}
OnlyOne == \A o \in Others : o # x => IF x.kind = "date" THEN ~DateSaid(SayDate(x), o) ELSE ~TimeSaid(SayTime(x), o)
Emit == Gen => PrintT(<<"GEN", ToJson(x)>>)
===============================================================================
