------------------------------- MODULE Components -------------------------------
(* Dates, times of day and money in Chinese and Japanese (C19).  A value is a record of components;
   Say gives its reading, Write its written forms, and Hear is a listener that knows only the marker
   words: it fills one slot after the other and so finds out which component was put in which place. *)
EXTENDS Numerals, Currency

Nian == 24180  Yue == 26376  Ri == 26085  Hao == 21495  Dian == 28857  Shi == 26178  ShiZh == 26102  FenM == 20998  Miao == 31186
Dao == <<21040>>      Kara == <<12363, 12425>>
Am(lang) == IF lang = "zh" THEN <<19978, 21320>> ELSE <<21320, 21069>>
Pm(lang) == IF lang = "zh" THEN <<19979, 21320>> ELSE <<21320, 24460>>
Ams(lang) == {Am(lang)} \cup (IF lang = "zh" THEN {<<26089, 19978>>, <<26089, 26216>>} ELSE {})
Pms(lang) == {Pm(lang)} \cup (IF lang = "zh" THEN {<<26202, 19978>>, <<20621, 26202>>} ELSE {})
Ban == 21322
Noon(lang, n) == CASE n = "am" -> Am(lang) [] n = "pm" -> Pm(lang) [] OTHER -> <<>>
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE IF n < 100 THEN <<n \div 10, n % 10>> ELSE IF n < 1000 THEN <<n \div 100, (n \div 10) % 10, n % 10>>
               ELSE <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
NumberOf(d) == CASE Len(d) = 1 -> d[1] [] Len(d) = 2 -> 10 * d[1] + d[2] [] Len(d) = 3 -> 100 * d[1] + 10 * d[2] + d[3]
                 [] Len(d) = 4 -> 1000 * d[1] + 100 * d[2] + 10 * d[3] + d[4] [] OTHER -> -1
None == -1
Blanks == [y |-> None, mo |-> None, d |-> None, h |-> None, mi |-> None, s |-> None, noon |-> ""]

-------------------------------------------------------------------------------
(* reading *)
SayNo(lang, n) == Read(lang, DigitsOf(n))
SayYear(lang, y) == (IF lang = "zh" THEN Digitwise("zh", DigitsOf(y)) ELSE SayNo("ja", y)) \o <<Nian>>
HourMark(lang) == IF lang = "zh" THEN Dian ELSE Shi
SayHour(lang, h) == (IF lang = "zh" /\ h = 2 THEN <<Liang>> ELSE SayNo(lang, h)) \o <<HourMark(lang)>>
SayMinute(lang, m) == (IF lang = "zh" /\ m < 10 THEN <<Zero>> ELSE <<>>) \o SayNo(lang, m) \o <<FenM>>
Say(lang, v) ==
  Noon(lang, v.noon)
  \o (IF v.y = None THEN <<>> ELSE SayYear(lang, v.y))
  \o (IF v.mo = None THEN <<>> ELSE SayNo(lang, v.mo) \o <<Yue>>)
  \o (IF v.d = None THEN <<>> ELSE SayNo(lang, v.d) \o <<Ri>>)
  \o (IF v.h = None THEN <<>> ELSE SayHour(lang, v.h))
  \o (IF v.mi \in {None, 0} THEN <<>> ELSE SayMinute(lang, v.mi))
  \o (IF v.s \in {None, 0} THEN <<>> ELSE SayNo(lang, v.s) \o <<Miao>>)

-------------------------------------------------------------------------------
(* hearing: words wait until a marker says which component they were.  Components come in the order
   of the language, each at most once *)
Rank(lang, c) == CASE c = Nian -> 1 [] c = Yue -> 2 [] c \in {Ri, Hao} -> 3 [] c = HourMark(lang) \/ (lang = "zh" /\ c = ShiZh) -> 4 [] c = FenM -> 5 [] c = Miao -> 6 [] OTHER -> 0
ZhDigit(c) == IF c = Zero THEN 0 ELSE IF DigitOf(c) > 0 /\ c # Liang THEN DigitOf(c) ELSE -1
AllDigits(w) == [k \in 1..Len(w) |-> ZhDigit(w[k])]
NoZero(w) == IF Len(w) > 1 /\ w[1] = Zero THEN Tail(w) ELSE w
Small(lang, w) == IF w # <<>> /\ (\A k \in 1..Len(w) : w[k] \in 48..57) THEN NumberOf([k \in 1..Len(w) |-> w[k] - 48])
                  ELSE LET m == Understand(lang, w) IN IF m = Wrong THEN -2 ELSE NumberOf(m)
Meaning(lang, rank, w) ==
  IF w = <<>> THEN -2
  ELSE IF rank = 1 /\ lang = "zh" THEN IF Len(w) = 4 /\ -1 \notin {AllDigits(w)[k] : k \in 1..4} THEN NumberOf(AllDigits(w)) ELSE -2
  \* a date with the word for two of something would count months or days
  ELSE IF rank < 4 /\ \E k \in 1..Len(w) : w[k] = Liang THEN -2
  ELSE IF lang = "zh" /\ rank # 4 THEN Small("zh", NoZero(w))
  ELSE Small(lang, w)
Fill(v, rank, n) == CASE rank = 1 -> [v EXCEPT !.y = n] [] rank = 2 -> [v EXCEPT !.mo = n] [] rank = 3 -> [v EXCEPT !.d = n]
                      [] rank = 4 -> [v EXCEPT !.h = n] [] rank = 5 -> [v EXCEPT !.mi = n] [] OTHER -> [v EXCEPT !.s = n]
RECURSIVE Slots(_, _, _, _, _)
Slots(lang, t, acc, last, v) ==
  IF t = <<>> THEN IF acc = <<>> /\ last > 0 THEN <<v>>
                   \* minutes from ten on may go without their marker
                   ELSE IF lang = "zh" /\ last = 4 /\ (Meaning("zh", 5, acc) > 9 \/ (v.noon # "" /\ Meaning("zh", 5, acc) > 0 /\ acc[1] = Zero)) THEN <<Fill(v, 5, Meaning("zh", 5, acc))>> ELSE <<>>
  ELSE IF lang = "zh" /\ last = 4 /\ acc = <<>> /\ t = <<Ban>> THEN <<Fill(v, 5, 30)>>
  ELSE LET r == Rank(lang, t[1]) IN
       IF r = 0 THEN Slots(lang, Tail(t), Append(acc, t[1]), last, v)
       ELSE IF r <= last \/ Meaning(lang, r, acc) < 0 THEN <<>>
       ELSE Slots(lang, Tail(t), <<>>, r, Fill(v, r, Meaning(lang, r, acc)))
Begins(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Drop(t, n) == SubSeq(t, n + 1, Len(t))
Heard(lang, t) ==      \* <<v>> or <<>> when the text is not one
  IF \E p \in Ams(lang) : Begins(t, p) THEN Slots(lang, Drop(t, 2), <<>>, 3, [Blanks EXCEPT !.noon = "am"])
  ELSE IF \E p \in Pms(lang) : Begins(t, p) THEN Slots(lang, Drop(t, 2), <<>>, 3, [Blanks EXCEPT !.noon = "pm"])
  ELSE Slots(lang, t, <<>>, 0, Blanks)
(* minutes and seconds not said are zero *)
Silent(v) == [v EXCEPT !.mi = IF v.h # None /\ @ = None THEN 0 ELSE @, !.s = IF v.h # None /\ @ = None THEN 0 ELSE @]
Means(lang, t, v) == LET x == Heard(lang, t) IN x # <<>> /\ Silent(x[1]) = Silent(v)

-------------------------------------------------------------------------------
(* written forms: f names the order of the components, sep the separator, pad two digits *)
Asc(n) == [k \in 1..Len(DigitsOf(n)) |-> DigitsOf(n)[k] + 48]
Two(n, pad) == IF pad /\ n < 10 THEN <<48>> \o Asc(n) ELSE Asc(n)
MonthTwo(lang, mo) == IF lang = "zh" THEN TRUE ELSE mo < 10       \* a month is two digits where it starts or ends a date
DateForms == {"ymd", "dmy", "ym", "my", "md"}
HasForm(lang, f, v) == CASE f \in {"ymd", "dmy"} -> v.y # None /\ v.d # None [] f \in {"ym", "my"} -> v.d = None /\ MonthTwo(lang, v.mo)
                         [] f = "md" -> v.y = None /\ MonthTwo(lang, v.mo) [] OTHER -> FALSE
WriteDate(v, f, sep, pad, padd) ==
  LET y == Asc(v.y)  m == Two(v.mo, pad)  d == Two(v.d, padd)  m2 == Two(v.mo, TRUE) IN
  CASE f = "ymd" -> y \o <<sep>> \o m \o <<sep>> \o d
    [] f = "dmy" -> d \o <<sep>> \o m \o <<sep>> \o y
    [] f = "ym" -> y \o <<sep>> \o m2
    [] f = "my" -> m2 \o <<sep>> \o y
    [] OTHER -> m2 \o <<sep>> \o d
AmMarks == {<<97, 109>>, <<65, 77>>, <<97, 46, 109, 46>>, <<32, 97, 109>>, <<32, 65, 77>>, <<32, 97, 46, 109, 46>>, <<32, 97, 32, 109>>, <<97, 32, 109>>}
PmMarks == {<<112, 109>>, <<80, 77>>, <<112, 46, 109, 46>>, <<32, 112, 109>>, <<32, 80, 77>>, <<32, 112, 46, 109, 46>>, <<32, 112, 32, 109>>, <<112, 32, 109>>}
WriteTime(v, pad, colon, mark) ==
  Two(v.h, pad) \o <<colon>> \o Two(v.mi, TRUE) \o (IF v.s = None THEN <<>> ELSE <<colon>> \o Two(v.s, TRUE)) \o mark
(* with the marker words themselves: the half of the day first *)
WriteWords(lang, v, pad, day, hour) ==
  Noon(lang, v.noon)
  \o (IF v.y = None THEN <<>> ELSE Asc(v.y) \o <<Nian>>)
  \o (IF v.mo = None THEN <<>> ELSE Two(v.mo, pad) \o <<Yue>>)
  \o (IF v.d = None THEN <<>> ELSE Two(v.d, pad) \o <<day>>)
  \o (IF v.h = None THEN <<>> ELSE Two(v.h, pad) \o <<hour>>)
  \o (IF v.mi = None THEN <<>> ELSE Two(v.mi, pad) \o <<FenM>>)
  \o (IF v.s = None THEN <<>> ELSE Two(v.s, pad) \o <<Miao>>)
MarkOk(v, mark) == CASE v.noon = "am" -> mark \in AmMarks [] v.noon = "pm" -> mark \in PmMarks [] OTHER -> mark = <<>>

-------------------------------------------------------------------------------
(* reading a written form back: the inverse normalizers write yyyy/mm/dd, h:mm(:ss) with the half of the
   day after it, and in Japanese keep the marker words *)
RECURSIVE Split(_, _, _)
Split(t, c, acc) == IF t = <<>> THEN <<acc>> ELSE IF t[1] = c THEN <<acc>> \o Split(Tail(t), c, <<>>) ELSE Split(Tail(t), c, Append(acc, t[1]))
Num(w) == IF w # <<>> /\ Len(w) < 5 /\ (\A k \in 1..Len(w) : w[k] \in 48..57) THEN NumberOf([k \in 1..Len(w) |-> w[k] - 48]) ELSE -2
ZhWrites(t, v) ==
  IF v.h = None /\ v.mo = None THEN t = Asc(v.y) \o <<Nian>>
  ELSE IF v.h = None THEN
    LET p == Split(t, 47, <<>>)  want == (IF v.y = None THEN <<>> ELSE <<v.y>>) \o <<v.mo>> \o (IF v.d = None THEN <<>> ELSE <<v.d>>) IN
    Len(p) = Len(want) /\ \A k \in 1..Len(want) : Num(p[k]) = want[k]
  ELSE LET mark == CASE v.noon = "am" -> <<97, 46, 109, 46>> [] v.noon = "pm" -> <<112, 46, 109, 46>> [] OTHER -> <<>>
           n == Len(t) - Len(mark)
           p == Split(SubSeq(t, 1, n), 58, <<>>) IN
       /\ n > 0 /\ SubSeq(t, n + 1, Len(t)) = mark
       /\ Len(p) \in {2, 3} /\ Num(p[1]) = v.h /\ Num(p[2]) = v.mi /\ Len(p[2]) = 2
       /\ (IF Len(p) = 3 THEN Len(p[3]) = 2 /\ Num(p[3]) = Silent(v).s ELSE Silent(v).s = 0)
JaWrites(t, v) == (\A k \in 1..Len(t) : t[k] \in 48..57 \/ Rank("ja", t[k]) > 0 \/ t[k] \in {21320, 21069, 24460}) /\ Means("ja", t, v)
Writes(lang, t, v) == IF lang = "zh" THEN ZhWrites(t, v) ELSE JaWrites(t, v)

-------------------------------------------------------------------------------
(* money: an amount with decimals, and a currency; the amount is said first, written last *)
PointW == 28857
SayAmount(lang, a, f) == Read(lang, a) \o (IF f = <<>> THEN <<>> ELSE <<PointW>> \o Digitwise(lang, f))
CallsIt(lang, sym) == {Name(lang, x) : x \in {c \in Currencies : c.sym = sym}}
Marks(lang, name) == {x.sym : x \in {c \in Currencies : Name(lang, c) = name}}
===============================================================================
