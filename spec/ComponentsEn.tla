------------------------------ MODULE ComponentsEn ------------------------------
(* English dates, times of day, money, fractions and periods (C19).  Words are strings; the listener
   hears which component each word was, the writer is compared token by token. *)
EXTENDS EnglishRules

Months == <<"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december">>
MonthWord(w, mo) == w \in {Months[mo], SubSeq(Months[mo], 1, 3)} \cup (IF mo = 9 THEN {"sept"} ELSE {})
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE IF n < 1000 THEN <<n \div 100, (n \div 10) % 10, n % 10>>
               ELSE <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
SayTwo(n) == IF n = 0 THEN <<"zero">> ELSE Two(n \div 10, n % 10)
None == -1
Strings(d) == IF d = <<>> THEN "" ELSE ToString(d[1])
RECURSIVE Join(_)
Join(d) == IF d = <<>> THEN "" ELSE ToString(d[1]) \o Join(Tail(d))
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)

-------------------------------------------------------------------------------
(* years: hundreds and years of the hundred, or as a number *)
PairSaid(ws, y) ==
  LET a == y \div 100  b == y % 100 IN
  a > 9 /\ \E k \in 1..(Len(ws) - 1) : SubSeq(ws, 1, k) = SayTwo(a) /\ LET r == SubSeq(ws, k + 1, Len(ws)) IN
    CASE b = 0 -> r = <<"hundred">> [] b < 10 -> Len(r) = 2 /\ ZeroWord(r[1]) /\ r[2] = Ones[b + 1] [] OTHER -> r = SayTwo(b)
YearSaid(ws, y) == PairSaid(ws, y) \/ Saying(ws, DigitsOf(y))
OneLess(ws) == SubSeq(ws, 1, Len(ws) - 1)
Plural(w) == CASE w = "hundred" -> "hundreds" [] w = "thousand" -> "thousands" [] w = "ten" -> "tens" [] w = "twenty" -> "twenties" [] w = "thirty" -> "thirties" [] w = "forty" -> "forties"
               [] w = "fifty" -> "fifties" [] w = "sixty" -> "sixties" [] w = "seventy" -> "seventies" [] w = "eighty" -> "eighties" [] w = "ninety" -> "nineties" [] OTHER -> ""
DecadeSaid(ws, y) == ws # <<>> /\ \E w \in {Tens[k] : k \in 1..9} \cup {"hundred", "thousand"} : Plural(w) = ws[Len(ws)] /\ YearSaid([ws EXCEPT ![Len(ws)] = w], y)

DaySaid(ws, d) == OrdinalSaid(ws, DigitsOf(d)) \/ ws = SayTwo(d)
NoCommas(ws) == SelectSeq(ws, LAMBDA w : w # ",")
(* "the fifth of january (,) twenty twelve", "january fifth, twenty twelve", with parts left out *)
DateSaid(ws0, v) ==
  LET ws == NoCommas(ws0)
      rest(k) == LET r == SubSeq(ws, k, Len(ws)) IN IF v.y = None THEN r = <<>> ELSE YearSaid(r, v.y)
      day(a, b) == b >= a /\ DaySaid(SubSeq(ws, a, b), v.d)
  IN \E k \in 1..Len(ws) :
       IF v.d = None THEN k = 1 /\ MonthWord(ws[1], v.mo) /\ rest(2)
       ELSE \/ ws[1] = "the" /\ k > 3 /\ ws[k - 1] = "of" /\ day(2, k - 2) /\ MonthWord(ws[k], v.mo) /\ rest(k + 1)
            \/ MonthWord(ws[1], v.mo) /\ k > 1 /\ (day(2, k) \/ (ws[2] = "the" /\ day(3, k))) /\ rest(k + 1)

(* time of day *)
Zones == {"cst", "cet", "pst", "est", "pt", "et", "gmt"}
Tailed(ws, v) == (IF v.noon = "" THEN <<>> ELSE <<v.noon>>) \o (IF v.zone = "" THEN <<>> ELSE <<v.zone>>)
MinuteSaid(ws, m) == CASE m = 0 -> ws \in {<<"o'clock">>, <<>>} [] m < 10 -> Len(ws) = 2 /\ ZeroWord(ws[1]) /\ ws[2] = Ones[m + 1] [] OTHER -> ws = SayTwo(m)
Unit(n, w) == IF n = 1 THEN w ELSE w \o "s"
TimeSaid(ws, v) ==
  LET t == Tailed(ws, v)
      b == IF Ends(ws, t) THEN SubSeq(ws, 1, Len(ws) - Len(t)) ELSE <<"?">> IN
  IF v.s # None THEN b = SayTwo(v.h) \o <<Unit(v.h, "hour")>> \o SayTwo(v.mi) \o <<Unit(v.mi, "minute"), "and">> \o SayTwo(v.s) \o <<Unit(v.s, "second")>>
  ELSE Starts(b, SayTwo(v.h)) /\ LET r == SubSeq(b, Len(SayTwo(v.h)) + 1, Len(b)) IN
       /\ MinuteSaid(r, v.mi)
       /\ (r = <<>> => v.noon # "")

(* money: how many, of what *)
Currency == [usd |-> [sym |-> <<36>>, one |-> {<<"dollar">>, <<"us", "dollar">>}, more |-> {<<"dollars">>, <<"us", "dollars">>}],
             gbp |-> [sym |-> <<163>>, one |-> {<<"pound">>, <<"british", "pound">>}, more |-> {<<"pounds">>, <<"british", "pounds">>}],
             eur |-> [sym |-> <<8364>>, one |-> {<<"euro">>}, more |-> {<<"euros">>}],
             krw |-> [sym |-> <<8361>>, one |-> {<<"won">>}, more |-> {<<"won">>, <<"wons">>}],
             jpy |-> [sym |-> <<165>>, one |-> {<<"yen">>}, more |-> {<<"yen">>, <<"yens">>}]]
RECURSIVE Trim(_)
Trim(f) == IF f # <<>> /\ f[Len(f)] = 0 THEN Trim(SubSeq(f, 1, Len(f) - 1)) ELSE f
JustOne(r) == r.a = <<1>> /\ Trim(r.f) = <<>> /\ r.q = ""
MoneySaid(ws, r) ==
  \E n \in (IF JustOne(r) THEN Currency[r.cur].one ELSE Currency[r.cur].more) :
    Ends(ws, n) /\ LET b == SubSeq(ws, 1, Len(ws) - Len(n)) IN
      LET c == IF r.q = "" THEN b ELSE IF Ends(b, <<r.q>>) THEN OneLess(b) ELSE <<"?">> IN NumberSaid(c, r.a, r.f) \/ NumberSaid(c, r.a, Trim(r.f))
(* "and five cents" *)
CentsSaid(ws, r) ==
  \E n \in Currency[r.cur].more \cup Currency[r.cur].one : \E k \in 1..Len(ws) :
    /\ k + Len(n) - 1 < Len(ws) /\ k > 1 /\ SubSeq(ws, k, k + Len(n) - 1) = n
    /\ Saying(SubSeq(ws, 1, k - 1), r.a)
    /\ LET t == SubSeq(ws, k + Len(n), Len(ws))  u == IF t # <<>> /\ t[1] = "and" THEN Tail(t) ELSE t IN
         Len(r.f) = 2 /\ u # <<>> /\ (IF u[Len(u)] \in {"cent", "cents"} THEN OneLess(u) ELSE u) = SayTwo(10 * r.f[1] + r.f[2])
OnlyCents(ws, r) == r.cur = "usd" /\ r.a = <<0>> /\ Len(r.f) = 2 /\ ws # <<>> /\ ws[Len(ws)] \in {"cent", "cents"} /\ OneLess(ws) = SayTwo(10 * r.f[1] + r.f[2])

(* fractions: how many of which parts *)
Single(w) == LET s == {x \in Words : Ordinal(x) \o "s" = w} IN IF s = {} THEN "" ELSE CHOOSE x \in s : TRUE
PartsSaid(ws, b, many) ==
  \/ b = <<2>> /\ ws = <<IF many THEN "halves" ELSE "half">>
  \/ b = <<4>> /\ ws = <<IF many THEN "quarters" ELSE "quarter">>
  \/ ws # <<>> /\ Saying([ws EXCEPT ![Len(ws)] = IF many THEN Single(@) ELSE Cardinal(@)], b)
  \/ b[1] = 1 /\ Len(ws) = 1 /\ Saying(<<"one", IF many THEN Single(ws[1]) ELSE Cardinal(ws[1])>>, b)
FractionSaid(ws, r) ==
  \E k \in 1..(Len(ws) - 1) :
    /\ \/ Saying(SubSeq(ws, 1, k), r.a) \/ (r.a = <<1>> /\ r.w # <<>> /\ SubSeq(ws, 1, k) = <<"a">>)
    /\ PartsSaid(SubSeq(ws, k + 1, Len(ws)), r.b, r.a # <<1>>)
MixedSaid(ws, r) == IF r.w = <<>> THEN FractionSaid(ws, r)
                    ELSE \E k \in 2..(Len(ws) - 1) : ws[k] = "and" /\ Saying(SubSeq(ws, 1, k - 1), r.w) /\ FractionSaid(SubSeq(ws, k + 1, Len(ws)), r)
(* halves and quarters of a year *)
PeriodSaid(ws, r) ==
  LET which == <<Ordinal(Ones[r.n + 1])>> \o <<IF r.part = "H" THEN "half" ELSE "quarter">>  b == IF Starts(ws, <<"the">>) THEN Tail(ws) ELSE ws IN
  Starts(b, which \o <<"of">>) /\ LET y == SubSeq(b, 4, Len(b)) IN IF r.y = 0 THEN Len(y) = 2 /\ ZeroWord(y[1]) /\ ZeroWord(y[2]) ELSE IF r.y < 100 THEN y = SayTwo(r.y) \/ (Len(y) = 2 /\ ZeroWord(y[1]) /\ r.y < 10 /\ y[2] = Ones[r.y + 1]) ELSE YearSaid(y, r.y)
===============================================================================
