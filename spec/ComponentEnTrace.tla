---------------------------- MODULE ComponentEnTrace ----------------------------
(* Judges recorded readings and writings of English dates, times, money, fractions and periods (C19).
   r.dir "tn": r.text (string) is written, r.said (words) its reading
         "itn": r.words are said, r.out (tokens) or r.cps (code points of the middle) written *)
EXTENDS ComponentsEn, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase

(* written *)
Dd(n, pad) == IF pad THEN Pad2(n) ELSE ToString(n)
Suf(d) == IF d \in {11, 12, 13} THEN "th" ELSE CASE d % 10 = 1 -> "st" [] d % 10 = 2 -> "nd" [] d % 10 = 3 -> "rd" [] OTHER -> "th"
WrittenDate(r) ==
  LET y == ToString(r.v.y)  d == ToString(r.v.d)  m == Dd(r.v.mo, r.pad)  dd == Dd(r.v.d, r.pad)  x == r.sep IN
  CASE r.f = "Mdy" -> r.month \o " " \o d \o ", " \o y
    [] r.f = "Mdy2" -> r.month \o " " \o d \o " " \o y
    [] r.f = "Md" -> r.month \o " " \o d
    [] r.f = "My" -> r.month \o " " \o y
    [] r.f = "dMy" -> d \o " " \o r.month \o " " \o y
    [] r.f = "dM" -> d \o " " \o r.month
    [] r.f = "thMy" -> "the " \o d \o Suf(r.v.d) \o " of " \o r.month \o " " \o y
    [] r.f = "ymd" -> y \o x \o m \o x \o dd
    [] r.f = "mdy" -> m \o x \o dd \o x \o y
    [] r.f = "dmy" -> dd \o x \o m \o x \o y
    [] OTHER -> "?"
DateOk(r) == (r.f = "dmy" => r.v.d > 12) /\ (r.f \in {"Mdy", "Mdy2", "Md", "My", "dMy", "dM", "thMy"} => MonthWord(r.mword, r.v.mo))
SuffixOk(r) == CASE r.v.noon = "am" -> r.mark \in {" am", " a.m.", " AM", "am", "a.m."} [] r.v.noon = "pm" -> r.mark \in {" pm", " p.m.", " PM", "pm", "p.m."} [] OTHER -> r.mark = ""
WrittenTime(r) == Dd(r.v.h, r.pad)
  \o (IF r.f = "h" THEN "" ELSE (IF r.f = "h.m" THEN "." ELSE ":") \o Pad2(r.v.mi)) \o (IF r.v.s = None THEN "" ELSE ":" \o Pad2(r.v.s)) \o r.mark \o (IF r.v.zone = "" THEN "" ELSE " " \o r.v.zone)
TimeOk(r) == SuffixOk(r) /\ (r.f \in {"h", "h.m"} => r.v.noon # "" /\ r.v.s = None) /\ (r.f = "h" => r.v.mi = 0) /\ (r.v.zone # "" => r.v.zone \in Zones)
NumberText(r) == (IF r.group THEN r.atext ELSE Join(r.a)) \o (IF r.f = <<>> THEN "" ELSE "." \o Join(r.f))
WrittenOther(r) ==
  CASE r.kind = "money" -> r.sym \o NumberText(r) \o (IF r.q = "" THEN "" ELSE " " \o r.q)
    [] r.kind = "fraction" -> (IF r.w = <<>> THEN "" ELSE Join(r.w) \o " ") \o Join(r.a) \o "/" \o Join(r.b)
    [] r.kind = "decade" -> ToString(r.y) \o "s"
    [] r.kind = "period" -> ToString(r.n) \o r.part \o Pad2(r.y)
    [] OTHER -> "?"
Faithful(r) ==
  /\ r.text = r.before \o (CASE r.kind = "date" -> WrittenDate(r) [] r.kind = "time" -> WrittenTime(r) [] OTHER -> WrittenOther(r)) \o r.after
  /\ CASE r.kind = "date" -> DateOk(r) [] r.kind = "time" -> TimeOk(r) [] r.kind = "money" -> r.symcp = Currency[r.cur].sym [] r.kind = "decade" -> r.y % 10 = 0 [] OTHER -> TRUE
Means(r, ws) ==
  CASE r.kind = "date" -> DateSaid(ws, r.v)
    [] r.kind = "time" -> TimeSaid(ws, r.v)
    [] r.kind = "money" -> MoneySaid(ws, r)
    [] r.kind = "fraction" -> MixedSaid(ws, r)
    [] r.kind = "decade" -> DecadeSaid(ws, r.y)
    [] r.kind = "period" -> PeriodSaid(ws, r)
    [] OTHER -> FALSE
Tn(r) == IF ~Faithful(r) THEN "the record is not the written value"
         ELSE IF Means(r, Inside(r.said, r.bw, r.aw)) THEN "" ELSE "the reading does not keep every component in its place"

(* inverse *)
NoonMark(n) == CASE n = "am" -> "a.m." [] n = "pm" -> "p.m." [] OTHER -> ""
NotEmpty(w) == IF w = "" THEN <<>> ELSE <<w>>
SaidTime(r) ==      \* the forms of the inverse normalizer; the half of the day in letters
  LET v == r.v
      noon == CASE v.noon = "am" -> {<<"a", "m">>, <<"am">>, <<"a.m.">>} [] v.noon = "pm" -> {<<"p", "m">>, <<"pm">>, <<"p.m.">>} [] OTHER -> {<<>>}
      z == NotEmpty(v.zone)
  IN \E n \in noon :
     CASE r.f = "h" -> r.words = SayTwo(v.h) \o n \o z /\ v.mi = 0 /\ v.noon # ""
       [] r.f = "clock" -> r.words = SayTwo(v.h) \o <<"o'clock">> \o z /\ v.mi = 0 /\ v.noon = ""
       [] r.f = "hm" -> v.noon # "" /\ v.mi > 0 /\ \E o \in {"o", "oh"} : r.words = SayTwo(v.h) \o (IF v.mi < 10 THEN <<o>> ELSE <<>>) \o SayTwo(v.mi) \o n \o z
       [] r.f = "past" -> v.noon = "" /\ z = <<>> /\ v.mi > 0 /\ (r.words = SayTwo(v.mi) \o <<"past">> \o SayTwo(v.h) \/ (v.mi = 30 /\ r.words = <<"half", "past">> \o SayTwo(v.h)) \/ (v.mi = 15 /\ r.words = <<"quarter", "past">> \o SayTwo(v.h)))
       [] r.f = "to" -> v.mi > 0 /\ z = <<>> /\ LET next == IF v.h = 12 THEN 1 ELSE v.h + 1 IN
                          \E t \in {"to", "till"} : (v.mi = 45 /\ v.noon = "" /\ r.words = <<"quarter", t>> \o SayTwo(next)) \/ (v.noon # "" /\ r.words = SayTwo(60 - v.mi) \o <<t>> \o SayTwo(next) \o n)
       [] OTHER -> FALSE
WritesTime(r) == r.out = <<Pad2(r.v.h) \o ":" \o Pad2(r.v.mi)>> \o NotEmpty(NoonMark(r.v.noon)) \o NotEmpty(r.v.zone)
WritesDate(r) ==
  LET t == NoCommas(r.out)  m == Months[r.v.mo]  y == IF r.v.y = None THEN <<>> ELSE <<ToString(r.v.y)>> IN
  IF r.v.d = None THEN t = <<m>> \o y
  ELSE t = (IF r.words[1] = "the" THEN <<ToString(r.v.d), m>> ELSE <<m, ToString(r.v.d)>>) \o y
Amount(r, f) == Currency[r.cur].sym \o Ascii(r.a) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o Ascii(f)) \o (IF r.q = "" THEN <<>> ELSE <<32>> \o Cps(r.q))
Zeros(q) == CASE q = "million" -> [k \in 1..6 |-> 48] [] q = "billion" -> [k \in 1..9 |-> 48] [] q = "trillion" -> [k \in 1..12 |-> 48] [] OTHER -> <<>>
WritesMoney(r) == r.cps = Amount(r, r.f) \/ (r.f = <<>> /\ r.cps = Currency[r.cur].sym \o Ascii(r.a) \o Zeros(r.q))
Writes(r) ==
  CASE r.kind = "date" -> WritesDate(r)
    [] r.kind = "time" -> WritesTime(r)
    [] r.kind = "money" -> WritesMoney(r)
    [] r.kind = "decade" -> r.out = <<ToString(r.y) \o "s">>
    [] r.kind = "period" -> r.out = <<r.part \o ToString(r.n), ToString(r.y)>>
    [] r.kind = "year" -> r.out = <<ToString(r.y)>>
    [] OTHER -> FALSE
Spoken(r) ==
  CASE r.kind = "time" -> SaidTime(r)
    [] r.kind = "money" -> MoneySaid(r.words, r) \/ CentsSaid(r.words, r) \/ OnlyCents(r.words, r)
    [] r.kind = "year" -> YearSaid(r.words, r.y)
    [] OTHER -> Means(r, r.words)
Itn(r) == IF ~Spoken(r) THEN "the record is not the spoken value"
          ELSE IF Writes(r) THEN "" ELSE "what is written does not restore the components"
Clause(r) == IF r.exc # "" THEN "no answer" ELSE IF r.dir = "tn" THEN Tn(r) ELSE Itn(r)
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
