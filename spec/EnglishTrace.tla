------------------------------ MODULE EnglishTrace ------------------------------
(* Judges recorded readings (C16) and writings (C18) of English numbers.
   r.dir    "tn", "itn", or "round": writing what was read back
   r.form   "int", "dec", "ord", "pct" or "qty" (a number before a quantity word)
   r.sign, r.a, r.f, r.q, r.group   sign, digits, decimals, quantity word, comma grouping
   r.num    (tn, round) the written number, code points
   r.signword, r.words              (itn) the spoken number, words
   r.before, r.after                words around it;  r.bc, r.ac the same as code points
   r.said   (tn, round) the reading, words;  r.out (itn, round) the writing, code points *)
EXTENDS EnglishRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase

ZerosOf(w) == 3 * ScaleOf(w)
Suffix(d) == LET o == d[Len(d)]  teen == Len(d) > 1 /\ d[Len(d) - 1] = 1 IN
  IF teen \/ o \notin 1..3 THEN <<116, 104>> ELSE IF o = 1 THEN <<115, 116>> ELSE IF o = 2 THEN <<110, 100>> ELSE <<114, 100>>
SignMark(s) == IF s = "-" THEN <<45>> ELSE <<>>
Written(r) == SignMark(r.sign) \o (IF r.group THEN Grouped(r.a) ELSE Ascii(r.a)) \o (IF r.f = <<>> THEN <<>> ELSE <<46>> \o Ascii(r.f))
  \o (CASE r.form = "ord" -> Suffix(r.a) [] r.form = "pct" -> <<37>> [] r.form = "qty" -> <<32>> \o Cps(r.q) [] OTHER -> <<>>)

-------------------------------------------------------------------------------
(* reading *)
Signless(r, ws) == IF r.sign = "" THEN ws ELSE IF ws # <<>> /\ ws[1] \in {"minus", "negative"} THEN Tail(ws) ELSE <<"?">>
Pairs(r) == r.sign = "" /\ ~r.group /\ r.f = <<>> /\ Len(r.a) = 4
Reads(r, all) ==
  LET ws == Signless(r, all) IN
  CASE r.form = "int" -> Saying(ws, r.a) \/ (Pairs(r) /\ ws = Year(r.a))
    [] r.form = "dec" -> NumberSaid(ws, r.a, r.f)
    [] r.form = "pct" -> Ends(ws, <<"percent">>) /\ NumberSaid(SubSeq(ws, 1, Len(ws) - 1), r.a, r.f)
    [] r.form = "qty" -> Ends(ws, <<r.q>>) /\ LET n == SubSeq(ws, 1, Len(ws) - 1) IN NumberSaid(n, r.a, r.f) \/ (Pairs(r) /\ n = Year(r.a))
    [] r.form = "ord" -> OrdinalSaid(ws, r.a)
    [] OTHER -> FALSE
(* seven digits after a point may be a telephone number *)
Number(r) == Len(r.f) # 7
Tn(r) == IF r.num # Written(r) THEN "the record is not the written number"
         ELSE IF ~Number(r) \/ Reads(r, Inside(r.said, r.before, r.after)) THEN "" ELSE "the reading is not that of the number"

-------------------------------------------------------------------------------
(* writing: digits, sign before them, decimals, a quantity word after them *)
Between(r) == IF Len(r.out) >= Len(r.bc) + Len(r.ac) /\ SubSeq(r.out, 1, Len(r.bc)) = r.bc /\ SubSeq(r.out, Len(r.out) - Len(r.ac) + 1, Len(r.out)) = r.ac
              THEN SubSeq(r.out, Len(r.bc) + 1, Len(r.out) - Len(r.ac)) ELSE <<-1>>
Digits(t) == t # <<>> /\ (\A k \in 1..Len(t) : t[k] \in 48..57) /\ (Len(t) = 1 \/ t[1] # 48)
ValueIs(t, d) == Digits(t) /\ t = Ascii(d)
(* whole numbers of a few millions may keep the word *)
WordKept(t, d) == \E w \in {"million", "billion", "trillion", "quadrillion"} :
  LET c == IF w = "quadrillion" THEN <<113, 117, 97, 100, 114, 105, 108, 108, 105, 111, 110>> ELSE Cps(w)  z == ZerosOf(w) IN
  /\ Len(d) > z /\ (\A k \in (Len(d) - z + 1)..Len(d) : d[k] = 0)
  /\ t = Ascii(SubSeq(d, 1, Len(d) - z)) \o <<32>> \o c
DecimalIs(t, d, f) == IF f = <<>> THEN ValueIs(t, d) ELSE t = Ascii(d) \o <<46>> \o Ascii(f)
Unsigned(r, t) == IF r.sign = "" THEN t ELSE IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE <<>>
Writes(r, all) ==
  LET t == Unsigned(r, all) IN
  CASE r.form = "int" -> ValueIs(t, r.a) \/ WordKept(t, r.a)
    [] r.form = "dec" -> DecimalIs(t, r.a, r.f)
    [] r.form = "pct" -> \E m \in {<<37>>, <<32, 37>>} : Len(t) > Len(m) /\ SubSeq(t, Len(t) - Len(m) + 1, Len(t)) = m /\ DecimalIs(SubSeq(t, 1, Len(t) - Len(m)), r.a, r.f)
    [] r.form = "qty" -> LET c == <<32>> \o Cps(r.q) IN
         \/ Len(t) > Len(c) /\ SubSeq(t, Len(t) - Len(c) + 1, Len(t)) = c /\ DecimalIs(SubSeq(t, 1, Len(t) - Len(c)), r.a, r.f)
         \/ r.f = <<>> /\ ValueIs(t, r.a \o [k \in 1..ZerosOf(r.q) |-> 0])
    [] r.form = "ord" -> t = Ascii(r.a) \o Suffix(r.a)
    [] OTHER -> FALSE
(* thousands of millions are no well-formed spoken number *)
Spoken(r) == r.form # "qty" \/ (Len(r.a) < 4 /\ (r.a # <<0>> \/ r.f # <<>>))
(* numbers up to twelve may stay words *)
Small(r) == r.form = "int" /\ (Len(r.a) = 1 \/ (Len(r.a) = 2 /\ r.a[1] = 1 /\ r.a[2] < 3))
Meant(r) ==
  LET whole == r.words IN
  /\ r.signword \in (IF r.sign = "" THEN {""} ELSE {"minus", "negative"})
  /\ CASE r.form = "int" -> Saying(whole, r.a)
       [] r.form = "dec" -> NumberSaid(whole, r.a, r.f)
       [] r.form = "pct" -> Ends(whole, <<"percent">>) /\ NumberSaid(SubSeq(whole, 1, Len(whole) - 1), r.a, r.f)
       [] r.form = "qty" -> Ends(whole, <<r.q>>) /\ NumberSaid(SubSeq(whole, 1, Len(whole) - 1), r.a, r.f)
       [] r.form = "ord" -> OrdinalSaid(whole, r.a)
       [] OTHER -> FALSE
Itn(r) == IF ~Meant(r) THEN "the record is not the spoken number"
          ELSE IF ~Spoken(r) \/ (Small(r) /\ r.kept) THEN ""
          ELSE IF Writes(r, Between(r)) THEN "" ELSE "the digits written are not the number spoken"
(* a reading that denotes the number in full is written back as the number *)
Full(r) == LET n == Signless(r, Inside(r.said, r.before, r.after)) IN
  /\ n # <<>> /\ n[1] # "thousand" /\ (r.form \in {"int", "qty"} /\ Len(r.a) = 4 => n # Year(r.a))
  /\ Reads(r, Inside(r.said, r.before, r.after))
Round(r) == IF r.num # Written(r) THEN "the record is not the written number"
            ELSE IF ~Number(r) \/ ~Spoken(r) \/ ~Full(r) \/ (Small(r) /\ r.kept) \/ Writes(r, Between(r)) THEN "" ELSE "writing the reading back gives another number"
Clause(r) == IF r.exc # "" THEN "no answer" ELSE IF r.dir = "tn" THEN Tn(r) ELSE IF r.dir = "itn" THEN Itn(r) ELSE Round(r)
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
