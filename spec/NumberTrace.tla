------------------------------- MODULE NumberTrace -------------------------------
(* Judges recorded readings (C15, C17) and writings (C18) of Chinese and Japanese numbers.
   r.dir, r.lang, r.form    "int", "dec", "pct", "frac" or "meas"
   r.sign, r.a, r.f         sign, digits and decimals of the number (or numerator)
   r.b, r.bf                of the denominator
   r.group                  the digits are grouped by commas
   r.unit, r.before, r.after, r.text, r.out   code points
   r.ra, r.rf, r.rb, r.rbf  (itn) the spoken words of the parts
   r.zero9, r.million       (itn) options *)
EXTENDS Numerals, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase

Phones == {<<1, 1, 0>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 1, 4>>, <<1, 1, 9>>, <<1, 2, 0>>, <<1, 2, 2>>, <<1, 0, 0, 1, 0>>, <<1, 0, 0, 8, 6>>, <<1, 2, 1, 1, 0>>, <<1, 2, 3, 0, 6>>, <<1, 2, 3, 1, 5>>, <<1, 2, 3, 2, 0>>, <<1, 2, 3, 2, 8>>, <<1, 2, 3, 3, 3>>, <<1, 2, 3, 4, 5>>, <<1, 2, 3, 6, 6>>, <<9, 5, 1, 1, 0>>, <<9, 5, 1, 2, 0>>, <<9, 5, 1, 8, 8>>, <<9, 5, 5, 0, 0>>, <<9, 5, 5, 1, 1>>, <<9, 5, 5, 3, 3>>, <<9, 5, 5, 5, 5>>, <<9, 5, 5, 6, 6>>, <<9, 5, 5, 8, 8>>, <<9, 5, 5, 9, 8>>, <<9, 5, 5, 9, 9>>}
PointWord == 28857
Fen == <<20998, 20043>>        FenNo == <<20998, 12398>>
PercentZh == <<30334, 20998, 20043>>   PercentJa == <<12497, 12540, 12475, 12531, 12488>>
SignWords(lang, s) ==
  CASE s = "" -> <<>>
    [] s = "-" -> IF lang = "zh" THEN <<36127>> ELSE <<12510, 12452, 12490, 12473>>
    [] s = "+" -> IF lang = "zh" THEN <<27491>> ELSE <<12503, 12521, 12473>>
    [] OTHER -> IF lang = "zh" THEN <<27491, 36127>> ELSE <<12503, 12521, 12473, 12510, 12452, 12490, 12473>>
SignMark(s) == CASE s = "" -> <<>> [] s = "-" -> <<45>> [] s = "+" -> <<43>> [] OTHER -> <<177>>
RECURSIVE Grouped(_)
Grouped(d) == IF Len(d) <= 3 THEN Ascii(d) ELSE Grouped(SubSeq(d, 1, Len(d) - 3)) \o <<44>> \o Ascii(SubSeq(d, Len(d) - 2, Len(d)))
Plain(d, f, grp) == (IF grp THEN Grouped(d) ELSE Ascii(d)) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o Ascii(f))
Half(t) == [k \in 1..Len(t) |-> IF t[k] \in 65281..65374 THEN t[k] - 65248 ELSE t[k]]
Written(r) == SignMark(r.sign) \o Plain(r.a, r.f, r.group) \o
  (CASE r.form = "pct" -> <<37>> [] r.form = "frac" -> <<47>> \o Plain(r.b, r.bf, r.group) [] r.form = "meas" -> r.unit [] OTHER -> <<>>)

-------------------------------------------------------------------------------
(* reading *)
Say(lang, s, d, f) == SignWords(lang, s) \o Read(lang, d) \o (IF f = <<>> THEN <<>> ELSE <<PointWord>> \o Digitwise(lang, f))
Readings(r) ==
  LET n == Say(r.lang, r.sign, r.a, r.f) IN
  CASE r.form = "pct" -> {IF r.lang = "zh" THEN PercentZh \o n ELSE n \o PercentJa}
    [] r.form = "frac" -> {Say(r.lang, "", r.b, r.bf) \o (IF r.lang = "zh" THEN Fen ELSE FenNo) \o n}
    [] r.form = "meas" -> {n \o r.unit}
    [] r.form = "int" /\ r.lang = "zh" /\ r.sign = "" /\ (r.a \in Phones \/ Len(r.a) = 11) -> {n, Phone(r.a)}
    [] r.form = "int" /\ r.lang = "ja" /\ ~r.group /\ Len(r.a) > 8 -> {n, SignWords("ja", r.sign) \o Digitwise("ja", r.a)}
    [] OTHER -> {n}
(* both words for two are right before a magnitude word, and before a unit when alone *)
Twos(r, t) == [k \in 1..Len(t) |-> IF t[k] = Liang /\ k < Len(t) /\ (t[k + 1] \in {Hundred, Thousand, Wan, YiZh} \/ (r.form = "meas" /\ t[k + 1] = r.unit[1])) THEN 20108 ELSE t[k]]
(* Chinese dates look like decimals and fractions: yyyy.mm, mm.yyyy, mm.d with two-digit months *)
Year(d) == Len(d) = 4 /\ d[1] # 0
Month(d) == Len(d) = 2 /\ d \in {<<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<0, 5>>, <<0, 6>>, <<0, 7>>, <<0, 8>>, <<0, 9>>, <<1, 0>>, <<1, 1>>, <<1, 2>>}
Day(d) == (Len(d) = 1 /\ d[1] # 0) \/ (Len(d) = 2 /\ d # <<0, 0>> /\ (d[1] < 3 \/ (d[1] = 3 /\ d[2] < 2)))
DateLike(x, y) == (Year(x) /\ Month(y)) \/ (Month(x) /\ (Year(y) \/ Day(y)))
AnyMonth(d) == Month(d) \/ (Len(d) = 1 /\ d[1] # 0)
InScope(r) == ~(/\ r.sign = ""
                /\ \/ r.form = "dec" /\ DateLike(r.a, r.f)
                   \/ r.form = "frac" /\ r.f = <<>> /\ r.bf = <<>> /\ DateLike(r.a, r.b)
                   \/ r.form = "frac" /\ r.bf = <<>> /\ Day(r.a) /\ AnyMonth(r.f) /\ Year(r.b)
                   \/ r.form = "frac" /\ r.f = <<>> /\ Year(r.a) /\ AnyMonth(r.b) /\ Day(r.bf)
                   \/ r.form = "frac" /\ r.bf = <<>> /\ Year(r.a) /\ AnyMonth(r.f) /\ Day(r.b))
Tn(r) ==
  IF Half(r.text) # Half(r.before \o Written(r) \o r.after) THEN "the record is not the written number"
  ELSE IF ~InScope(r) THEN ""
  ELSE LET got == Twos(r, r.out) IN
       IF \E w \in Readings(r) : got = r.before \o w \o r.after THEN ""
       ELSE "the reading is not that of the number"

-------------------------------------------------------------------------------
(* writing *)
Spoken(lang, s, ra, rf) == SignWords(lang, s) \o ra \o (IF rf = <<>> THEN <<>> ELSE <<PointWord>> \o rf)
Said(r) ==
  LET n == Spoken(r.lang, "", r.ra, r.rf)  s == SignWords(r.lang, r.sign) IN
  s \o (CASE r.form = "pct" -> IF r.lang = "zh" THEN PercentZh \o n ELSE n \o PercentJa
          [] r.form = "frac" -> Spoken(r.lang, "", r.rb, r.rbf) \o (IF r.lang = "zh" THEN Fen ELSE FenNo) \o n
          [] r.form = "meas" -> n \o r.unit
          [] OTHER -> n)
DigitsSaid(lang, t) == [k \in 1..Len(t) |-> IF t[k] \in {Zero, DigJa[1]} THEN 0 ELSE DigitOf(t[k])]
Meant(r) == Understand(r.lang, r.ra) = r.a /\ DigitsSaid(r.lang, r.rf) = r.f
            /\ (r.form = "frac" => Understand(r.lang, r.rb) = r.b /\ DigitsSaid(r.lang, r.rbf) = r.bf)
(* whole multiples of a hundred million have no written decimals with the magnitude word *)
Pointed(d, f) == f # <<>> /\ Len(d) > 8 /\ \A k \in (Len(d) - 7)..Len(d) : d[k] = 0
Unwritten(r) == Pointed(r.a, r.f) \/ (r.form = "frac" /\ Pointed(r.b, r.bf))
Unsigned(r, t) == IF r.sign = "" THEN {t}
  ELSE {SubSeq(t, Len(m) + 1, Len(t)) : m \in {x \in {SignMark(r.sign), SignWords(r.lang, r.sign)} : Len(x) <= Len(t) /\ SubSeq(t, 1, Len(x)) = x}}
(* the sign of a Japanese fraction is said first, in front of the denominator *)
SignedBelow(r, t) == r.lang = "ja" /\ r.form = "frac" /\ r.sign = "-" /\
  \E k \in At(t, 47) : k < Len(t) /\ t[k + 1] = 45 /\ DecimalIs(SubSeq(t, 1, k - 1), r.a, r.f) /\ DecimalIs(SubSeq(t, k + 2, Len(t)), r.b, r.bf)
(* numbers said with one digit stay words unless asked for *)
OneDigit(d) == Len(d) = 1 \/ (Len(d) = 9 /\ d[1] # 0 /\ \A k \in 2..9 : d[k] = 0)
Stays(r) == r.form \in {"int", "meas"} /\ OneDigit(r.a) /\ r.f = <<>>
Body(r, t) ==
  CASE r.form \in {"int", "dec"} -> DecimalIs(t, r.a, r.f)
    [] r.form = "pct" -> \E m \in {<<37>>} \cup (IF r.lang = "ja" THEN {PercentJa} ELSE {}) :
                           Len(t) > Len(m) /\ SubSeq(t, Len(t) - Len(m) + 1, Len(t)) = m /\ DecimalIs(SubSeq(t, 1, Len(t) - Len(m)), r.a, r.f)
    [] r.form = "frac" -> \E k \in At(t, 47) : DecimalIs(SubSeq(t, 1, k - 1), r.a, r.f) /\ DecimalIs(SubSeq(t, k + 1, Len(t)), r.b, r.bf)
    [] r.form = "meas" -> Len(t) > Len(r.unit) /\ SubSeq(t, Len(t) - Len(r.unit) + 1, Len(t)) = r.unit /\ DecimalIs(SubSeq(t, 1, Len(t) - Len(r.unit)), r.a, r.f)
    [] OTHER -> FALSE
(* the digits of millions are kept whole only when asked for *)
HasWan(t) == At(t, Wan) # {}
Style(r, t) == r.form = "int" => (IF Len(r.a) <= 6 THEN ~HasWan(t) ELSE IF Len(r.a) <= 8 THEN HasWan(t) = ~r.million ELSE TRUE)
Between(r) == IF Len(r.out) >= Len(r.before) + Len(r.after) /\ SubSeq(r.out, 1, Len(r.before)) = r.before
                 /\ SubSeq(r.out, Len(r.out) - Len(r.after) + 1, Len(r.out)) = r.after
              THEN SubSeq(r.out, Len(r.before) + 1, Len(r.out) - Len(r.after)) ELSE <<-1>>
Itn(r) ==
  IF ~Meant(r) \/ r.text # r.before \o Said(r) \o r.after THEN "the record is not the spoken number"
  ELSE LET t == Between(r) IN
       IF Unwritten(r) THEN ""
       ELSE IF Stays(r) /\ (~r.zero9 \/ r.form = "meas") /\ r.out = r.text THEN ""
       ELSE IF SignedBelow(r, t) THEN ""
       ELSE IF ~\E u \in Unsigned(r, t) : Body(r, u) THEN "the digits written are not the number spoken"
       ELSE IF ~Style(r, t) THEN "the magnitude word is not as the option says"
       ELSE ""
(* writing the reading of a number back: r.said is the reading, r.out what is written for it.  A
   reading in fractions says a sign inside: only readings without one are in scope there *)
Round(r) ==
  IF Half(r.text) # Half(r.before \o Written(r) \o r.after) THEN "the record is not the written number"
  ELSE LET n == Say(r.lang, r.sign, r.a, r.f)
           full == CASE r.form = "pct" -> IF r.lang = "zh" THEN PercentZh \o n ELSE n \o PercentJa
                     [] r.form = "frac" -> Say(r.lang, "", r.b, r.bf) \o (IF r.lang = "zh" THEN Fen ELSE FenNo) \o n
                     [] r.form = "meas" -> n \o r.unit [] OTHER -> n
       IN IF Twos(r, r.said) # r.before \o full \o r.after \/ (r.form \in {"pct", "frac"} /\ r.sign # "") \/ Unwritten(r) THEN ""
          ELSE IF Stays(r) /\ r.out = r.said THEN ""
          ELSE IF \E u \in Unsigned(r, Between(r)) : Body(r, u) THEN "" ELSE "writing the reading back gives another number"
Clause(r) == IF r.exc # "" THEN "no answer" ELSE IF r.dir = "tn" THEN Tn(r) ELSE IF r.dir = "itn" THEN Itn(r) ELSE Round(r)
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
