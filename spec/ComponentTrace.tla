----------------------------- MODULE ComponentTrace -----------------------------
(* Judges recorded readings and writings of Chinese and Japanese dates, times and money (C19).
   r.dir    "tn": r.text is written, r.out read;  "itn": r.text is said, r.out written;
            "round": r.text is written, r.said its reading, r.out the writing of the reading
   r.kind   "when" or "money";  r.v, r.w components (r.two: a range of two);  r.f form, or "time"
   r.sep, r.pad, r.padd, r.colon, r.mark, r.mark2, r.link   how it is written
   r.sym, r.gap, r.a, r.fr, r.name    money *)
EXTENDS Components, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Ends(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
Half(t) == [k \in 1..Len(t) |-> IF t[k] \in 65281..65374 THEN t[k] - 65248 ELSE t[k]]
One(r, v, mark) == IF r.f = "words" THEN WriteWords(r.lang, v, r.pad, r.dm, r.hm) ELSE IF r.f = "time" THEN WriteTime(v, r.pad, r.colon, mark) ELSE WriteDate(v, r.f, r.sep, r.pad, r.padd)
Amount(r) == [k \in 1..Len(r.a) |-> r.a[k] + 48] \o (IF r.fr = <<>> THEN <<>> ELSE <<46>> \o [k \in 1..Len(r.fr) |-> r.fr[k] + 48])
Written(r) == IF r.kind = "money" THEN r.sym \o (IF r.gap THEN <<32>> ELSE <<>>) \o Amount(r)
              ELSE One(r, r.v, r.mark) \o (IF r.two THEN r.link \o One(r, r.w, r.mark2) ELSE <<>>)
Sound(r) == r.kind = "money" \/ (/\ r.f = "time" => MarkOk(r.v, r.mark) /\ (r.two => MarkOk(r.w, r.mark2))
                                 /\ r.f = "words" => r.dm \in {Ri, Hao} /\ r.hm \in {Dian, Shi, ShiZh} /\ (r.lang = "ja" => r.dm = Ri /\ r.hm = Shi)
                                 /\ r.f \notin {"time", "words"} => HasForm(r.lang, r.f, r.v) /\ (r.two => HasForm(r.lang, r.f, r.w))
                                 /\ r.two => r.link \in {<<45>>, <<126>>})
Faithful(r) == Half(r.text) = Half(r.before \o Written(r) \o r.after) /\ Sound(r)
Inside(r, t) == IF Len(t) >= Len(r.before) + Len(r.after) /\ SubSeq(t, 1, Len(r.before)) = r.before /\ SubSeq(t, Len(t) - Len(r.after) + 1, Len(t)) = r.after
                THEN SubSeq(t, Len(r.before) + 1, Len(t) - Len(r.after)) ELSE <<>>
To(lang) == IF lang = "zh" THEN Dao ELSE Kara
ReadsRange(r, t) == \E k \in 1..(Len(t) - Len(To(r.lang))) : SubSeq(t, k, k + Len(To(r.lang)) - 1) = To(r.lang)
                      /\ Means(r.lang, SubSeq(t, 1, k - 1), r.v) /\ Means(r.lang, SubSeq(t, k + Len(To(r.lang)), Len(t)), r.w)
(* both words for two are right before a magnitude word *)
Twos(t) == [k \in 1..Len(t) |-> IF t[k] = Liang /\ k < Len(t) /\ t[k + 1] \in {Hundred, Thousand, Wan, YiZh} THEN 20108 ELSE t[k]]
MoneySaid(r, t) == \E n \in CallsIt(r.lang, r.sym) : Twos(t) = SayAmount(r.lang, r.a, r.fr) \o n
Reads(r, t) == IF r.kind = "money" THEN MoneySaid(r, t) ELSE IF r.two THEN ReadsRange(r, t) ELSE Means(r.lang, t, r.v)
Tn(r) == IF ~Faithful(r) THEN "the record is not the written value"
         ELSE IF Reads(r, Inside(r, r.out)) THEN "" ELSE "the reading does not keep every component in its place"
Digs(a) == [k \in 1..Len(a) |-> a[k] + 48]
After(t, m) == SubSeq(t, Len(m) + 1, Len(t))
MarksOf(lang, name) == Marks(lang, name) \cup (IF <<84, 82, 89>> \in Marks(lang, name) THEN {<<8378>>} ELSE {})
(* the amount is written as a number is: with or without the word for ten thousand *)
AmountIs(r, t) == DecimalIs(t, r.a, r.fr)
MoneyWritten(r, t) == \/ \E m \in MarksOf(r.lang, r.name) : Begins(t, m) /\ AmountIs(r, After(t, m))
                      \/ r.lang = "ja" /\ Ends(t, r.name) /\ AmountIs(r, SubSeq(t, 1, Len(t) - Len(r.name)))
Jiao == {27611, 35282}
(* yuan, then tenths and hundredths *)
SaidJiao(r) == r.f = "jiao" /\ r.lang = "zh" /\ Understand("zh", r.ra) = r.a /\ r.name = <<20803>> /\ Len(r.fr) \in {1, 2} /\ \A k \in 1..Len(r.fr) : r.fr[k] > 0
               /\ \E j \in Jiao : r.text = r.before \o r.ra \o r.name \o Read("zh", <<r.fr[1]>>) \o <<j>> \o (IF Len(r.fr) = 2 THEN Read("zh", <<r.fr[2]>>) \o <<FenM>> ELSE <<>>) \o r.after
Said(r) == IF r.kind = "money" /\ r.f = "jiao" THEN SaidJiao(r)
           ELSE IF r.kind = "money" THEN Understand(r.lang, r.ra) = r.a /\ r.text = r.before \o r.ra \o r.rf \o r.name \o r.after /\ (r.fr = <<>> <=> r.rf = <<>>)
                                     /\ r.rf \in {<<>>, <<PointW>> \o Digitwise(r.lang, r.fr)}
           ELSE r.text = r.before \o r.said \o r.after /\ Means(r.lang, r.said, r.v)
Itn(r) == IF ~Said(r) THEN "the record is not the spoken value"
          ELSE IF (IF r.kind = "money" THEN MoneyWritten(r, Inside(r, r.out)) ELSE Writes(r.lang, Inside(r, r.out), r.v)) THEN ""
          ELSE "what is written does not restore the components"
(* the reading of a value, written back *)
Back(r, t) == IF r.kind = "money" THEN \E n \in CallsIt(r.lang, r.sym) : \E m \in Marks(r.lang, n) : t = m \o Amount(r) \/ t = Amount(r) \o n
              ELSE Writes(r.lang, t, r.v)
Round(r) == IF ~Faithful(r) THEN "the record is not the written value"
            ELSE IF ~Reads(r, Inside(r, r.said)) THEN ""      \* judged as a reading
            ELSE IF Back(r, Inside(r, r.out)) \/ (r.kind = "money" /\ Len(r.a) = 1 /\ r.fr = <<>> /\ r.out = r.said) THEN ""
            ELSE "writing the reading back does not restore the components"
Clause(r) == IF r.exc # "" THEN "no answer" ELSE IF r.dir = "tn" THEN Tn(r) ELSE IF r.dir = "itn" THEN Itn(r) ELSE Round(r)
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
