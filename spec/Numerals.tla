-------------------------------- MODULE Numerals --------------------------------
(* Written numbers and their readings in Chinese and Japanese (C15, C17, C18).
   A number is a sequence of decimal digits without leading zeros (zero itself is <<0>>),
   a reading a sequence of code points.  Reading is a machine that walks over the digits from
   the left; understanding is another that walks over the words and fills in places. *)
EXTENDS Integers, Sequences, TLC

DigZh == <<38646, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061>>
DigJa == <<12295, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061>>
Yao == 24186          \* the digit one in telephone numbers
Liang == 20004        \* the other word for two
Ten == 21313  Hundred == 30334  Thousand == 21315
Wan == 19975  YiZh == 20159  OkuJa == 20740
Zero == 38646
Digit(lang, d) == IF lang = "zh" THEN DigZh[d + 1] ELSE DigJa[d + 1]
Digitwise(lang, d) == [k \in 1..Len(d) |-> Digit(lang, d[k])]
Phone(d) == [k \in 1..Len(d) |-> IF d[k] = 1 THEN Yao ELSE DigZh[d[k] + 1]]
Unit(q) == CASE q = 3 -> <<Thousand>> [] q = 2 -> <<Hundred>> [] q = 1 -> <<Ten>> [] OTHER -> <<>>
Big(lang, p) == IF p = 4 THEN <<Wan>> ELSE IF p = 8 THEN <<IF lang = "zh" THEN YiZh ELSE OkuJa>> ELSE <<>>

(* Chinese: a zero word stands for the zeros before the next digit, unless they end a group of
   four that is not all zero; a leading ten has no one before it *)
ZhStart == [out |-> <<>>, pend |-> FALSE, some |-> FALSE]
ZhStep(st, x, p) ==
  LET q == p % 4
      said == IF x = 0 THEN st.out
              ELSE st.out \o (IF st.pend /\ st.out # <<>> THEN <<Zero>> ELSE <<>>)
                   \o (IF x = 1 /\ q = 1 /\ st.out = <<>> THEN <<>> ELSE <<DigZh[x + 1]>>) \o Unit(q)
      some == st.some \/ x # 0
  IN IF q # 0 THEN [out |-> said, pend |-> (x = 0), some |-> some]
     ELSE [out |-> said \o (IF some THEN Big("zh", p) ELSE <<>>), pend |-> ~some, some |-> FALSE]
(* several zeros in a row keep the zero word pending *)
RECURSIVE ZhWalk(_, _, _)
ZhWalk(d, k, st) == IF k > Len(d) THEN st.out ELSE ZhWalk(d, k + 1, ZhStep(st, d[k], Len(d) - k))
ReadZh(d) == IF d = <<0>> THEN <<DigZh[1]>> ELSE ZhWalk(d, 1, ZhStart)

(* Japanese: zeros are silent; one is silent before ten and hundred, and before thousand in the
   last group *)
JaStep(st, x, p) ==
  LET q == p % 4
      mute == x = 1 /\ (q \in {1, 2} \/ (q = 3 /\ p = 3))
      said == IF x = 0 THEN st.out ELSE st.out \o (IF mute THEN <<>> ELSE <<DigJa[x + 1]>>) \o Unit(q)
      some == st.some \/ x # 0
  IN IF q # 0 THEN [out |-> said, some |-> some]
     ELSE [out |-> said \o (IF some THEN Big("ja", p) ELSE <<>>), some |-> FALSE]
RECURSIVE JaWalk(_, _, _)
JaWalk(d, k, st) == IF k > Len(d) THEN st.out ELSE JaWalk(d, k + 1, JaStep(st, d[k], Len(d) - k))
ReadJa(d) == IF d = <<0>> THEN <<DigJa[1]>> ELSE JaWalk(d, 1, [out |-> <<>>, some |-> FALSE])
Read(lang, d) == IF lang = "zh" THEN ReadZh(d) ELSE ReadJa(d)

-------------------------------------------------------------------------------
(* Understanding a reading: places filled in, from the words alone.
   place[p] is the digit of 10^p; cur a digit word not placed yet; last the smallest place of
   the group filled so far; base the last group closed; zero: a zero word is waiting *)
Blank == [ok |-> TRUE, place |-> [p \in 0..11 |-> 0], sec |-> [q \in 0..3 |-> 0], cur |-> -1, last |-> 4, base |-> 12, zero |-> FALSE, any |-> FALSE]
Bad(st) == [st EXCEPT !.ok = FALSE]
DigitOf(c) == CASE c = 19968 -> 1 [] c \in {20108, Liang} -> 2 [] c = 19977 -> 3 [] c = 22235 -> 4 [] c = 20116 -> 5 [] c = 20845 -> 6 [] c = 19971 -> 7 [] c = 20843 -> 8 [] c = 20061 -> 9 [] OTHER -> 0
PlaceOf(c) == CASE c = Ten -> 1 [] c = Hundred -> 2 [] c = Thousand -> 3 [] OTHER -> 0
GroupOf(c) == CASE c = Wan -> 4 [] c \in {YiZh, OkuJa} -> 8 [] OTHER -> 0
(* a digit at the end stands for ones; in Chinese, right after a magnitude word and with no zero
   word between, for the next lower place: one hundred one is 110, ten thousand two 12000 *)
Lands(lang, st, b) == IF lang = "zh" /\ ~st.zero /\ st.last \in {2, 3} THEN st.last - 1
                      ELSE IF lang = "zh" /\ ~st.zero /\ st.last = 4 /\ st.base = 4 /\ b = 0 THEN 3 ELSE 0
Close(lang, st, b) ==
  LET sec == IF st.cur > 0 THEN [st.sec EXCEPT ![Lands(lang, st, b)] = st.cur] ELSE st.sec IN
  IF b >= st.base \/ (st.zero /\ st.cur = -1) \/ sec = [q \in 0..3 |-> 0] \/ (st.cur > 0 /\ st.last = 0) THEN Bad(st)
  ELSE [Blank EXCEPT !.place = [p \in 0..11 |-> IF p \div 4 = b \div 4 THEN sec[p % 4] ELSE st.place[p]], !.base = b, !.any = TRUE]
Hear(lang, st, c) ==
  IF ~st.ok THEN st
  ELSE IF DigitOf(c) > 0 THEN IF st.cur # -1 THEN Bad(st) ELSE [st EXCEPT !.cur = DigitOf(c)]
  ELSE IF c = Zero THEN IF st.cur # -1 \/ st.zero THEN Bad(st) ELSE [st EXCEPT !.zero = TRUE]
  ELSE IF PlaceOf(c) > 0 THEN
    IF PlaceOf(c) >= st.last THEN Bad(st)
    ELSE [st EXCEPT !.sec[PlaceOf(c)] = IF st.cur = -1 THEN 1 ELSE st.cur, !.cur = -1, !.last = PlaceOf(c), !.zero = FALSE]
  ELSE IF GroupOf(c) > 0 THEN Close(lang, st, GroupOf(c))
  ELSE Bad(st)
RECURSIVE HearAll(_, _, _, _)
HearAll(lang, t, k, st) == IF k > Len(t) THEN st ELSE HearAll(lang, t, k + 1, Hear(lang, st, t[k]))
Wrong == <<-1>>
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d
Places(pl) == Strip([k \in 1..12 |-> pl[12 - k]])
Understand(lang, t) ==
  IF t = <<Digit(lang, 0)>> THEN <<0>>
  ELSE LET st == HearAll(lang, t, 1, Blank)
           fin == IF ~st.ok \/ t = <<>> THEN Bad(st) ELSE IF st.cur = -1 /\ st.last = 4 /\ ~st.zero /\ st.any THEN st ELSE Close(lang, st, 0)
       IN IF fin.ok THEN Places(fin.place) ELSE Wrong

(* written with digits and perhaps magnitude words (100万1111): each part stands in its place and
   fits below the word before it *)
WBlank == [ok |-> TRUE, place |-> [p \in 0..15 |-> 0], part |-> <<>>, lim |-> 16]
WordAt(c) == CASE c = Wan -> 4 [] c \in {YiZh, OkuJa} -> 8 [] c = 20806 -> 12 [] OTHER -> 0
PutPart(st, e) ==
  IF st.part = <<>> \/ Len(st.part) + e > st.lim \/ (Len(st.part) > 1 /\ st.part[1] = 0) THEN Bad(st)
  ELSE [st EXCEPT !.place = [p \in 0..15 |-> IF p >= e /\ p < e + Len(st.part) THEN st.part[Len(st.part) - (p - e)] ELSE st.place[p]], !.part = <<>>, !.lim = e]
RECURSIVE WAll(_, _, _)
WAll(t, k, st) ==
  IF ~st.ok THEN st
  ELSE IF k > Len(t) THEN IF st.part = <<>> /\ st.lim < 16 THEN st ELSE PutPart(st, 0)
  ELSE IF t[k] \in 48..57 THEN WAll(t, k + 1, [st EXCEPT !.part = Append(st.part, t[k] - 48)])
  ELSE IF WordAt(t[k]) > 0 THEN WAll(t, k + 1, PutPart(st, WordAt(t[k])))
  ELSE Bad(st)
Value(t) == LET st == WAll(t, 1, WBlank) IN IF st.ok THEN Strip([k \in 1..16 |-> st.place[16 - k]]) ELSE Wrong
(* a written number with decimals *)
Ascii(d) == [k \in 1..Len(d) |-> d[k] + 48]
At(t, c) == {k \in 1..Len(t) : t[k] = c}
DecimalIs(t, d, f) ==
  IF f = <<>> THEN Value(t) = d
  ELSE \E k \in At(t, 46) : SubSeq(t, k + 1, Len(t)) = Ascii(f) /\ Value(SubSeq(t, 1, k - 1)) = d
===============================================================================
