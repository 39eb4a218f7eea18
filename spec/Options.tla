-------------------------------- MODULE Options --------------------------------
(* What each construction option does (C20).

   Post-processing options work character by character on the text that the pipeline
   produces without them, in any combination:
     simple   traditional characters become the simplified ones of the table
     interj   the interjections are deleted
     puncts   ASCII punctuation and the listed CJK punctuation is deleted
     half     full-width forms become the ASCII ones (and the ideographic full stop and the
              curly double quotes theirs)
     oov      a character outside the language's character set is put in brackets
   The number options of inverse normalization change only how the class of numbers they name is
   read: see Converted and Arabic. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Numerals
Tables == TLCEval(JsonDeserialize("OptionTables.json"))
Elements(s) == {s[k] : k \in 1..Len(s)}
SimpleOf == TLCEval([c \in Elements(Tables.trad) |-> Tables.simple[CHOOSE k \in 1..Len(Tables.trad) : Tables.trad[k] = c]])
Trad == TLCEval(DOMAIN SimpleOf)
CharsetZh == TLCEval(Elements(Tables.charset_zh))
CharsetJa == TLCEval(Elements(Tables.charset_ja))
PunctZh == TLCEval(Elements(Tables.punct_zh))
PunctJa == TLCEval(Elements(Tables.punct_ja))
AsciiPunct == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
AsciiWord == (48..57) \cup (65..90) \cup (97..122)
BlankChar == (9..13) \cup {32, 160}
InterjZh == {21571, 21834}                    \* the two hesitation sounds

Interj(lang, c) == lang = "zh" /\ c \in InterjZh
ListedPunct(lang, c) == IF lang = "zh" THEN c \in PunctZh ELSE c \in PunctJa
Punct(lang, c) == c \in AsciiPunct \/ ListedPunct(lang, c)
Half(c) == IF c \in 65281..65374 THEN c - 65248 ELSE IF c = 12290 THEN 46 ELSE IF c \in {8220, 8221} THEN 34 ELSE c
Simple(c) == IF c \in Trad THEN SimpleOf[c] ELSE c
Known(lang, c) == c \in AsciiWord \/ c \in AsciiPunct \/ c \in BlankChar \/ ListedPunct(lang, c)
                  \/ (IF lang = "zh" THEN c \in CharsetZh ELSE c \in CharsetJa)
Open == <<60, 111, 111, 118, 62>>
Shut == <<60, 47, 111, 111, 118, 62>>

\* the stages one at a time: a character becomes a sequence of characters
Stage(lang, stage, c) ==
  CASE stage = "simple" -> <<Simple(c)>>
    [] stage = "interj" -> IF Interj(lang, c) THEN <<>> ELSE <<c>>
    [] stage = "puncts" -> IF Punct(lang, c) THEN <<>> ELSE <<c>>
    [] stage = "half"   -> <<Half(c)>>
    [] stage = "oov"    -> IF Known(lang, c) THEN <<c>> ELSE Open \o <<c>> \o Shut
\* all of them at once: deletion looks at the character itself, brackets at what is left of it
PostOne(lang, o, c) ==
  LET s == IF o.simple THEN Simple(c) ELSE c
      h == IF o.half THEN Half(s) ELSE s
  IN IF (o.interj /\ Interj(lang, c)) \/ (o.puncts /\ Punct(lang, c)) THEN <<>>
     ELSE IF o.oov /\ ~Known(lang, h) THEN Open \o <<h>> \o Shut ELSE <<h>>
RECURSIVE PostFrom(_, _, _, _)
PostFrom(lang, o, t, k) == IF k > Len(t) THEN <<>> ELSE PostOne(lang, o, t[k]) \o PostFrom(lang, o, t, k + 1)
Post(lang, o, t) == PostFrom(lang, o, t, 1)

\* ---------------------------------------------------------------- number options
\* n: digits of a whole number; class "plain" (a number by itself), "measure", "money", or one of the
\* classes that the options do not name
Small(n) == Len(n) = 1
Converted(o, class, n) ==
  CASE class = "plain" -> o.standalone /\ (o.zero9 \/ ~Small(n))
    [] class \in {"measure", "money"} -> o.zero9 \/ ~Small(n)
    [] OTHER -> TRUE
\* written with digits only, or with the ten-thousands spelled by their unit
WanPart(n) == SubSeq(n, 1, Len(n) - 4)
WanForm(n) == Ascii(WanPart(n)) \o <<Wan>> \o (IF Strip(SubSeq(n, Len(n) - 3, Len(n))) = <<0>> THEN <<>> ELSE Ascii(Strip(SubSeq(n, Len(n) - 3, Len(n)))))
Millions(n) == Len(n) \in 7..8
Round(n) == Len(n) > 4 /\ Strip(SubSeq(n, Len(n) - 3, Len(n))) = <<0>>
\* which forms a converted number may have: the option decides between them from a million on; a
\* Chinese number before a unit of measurement may keep the unit form in any case (before a unit
\* symbol as the letter W)
Arabic(lang, o, class, n) ==
  IF lang = "zh" /\ class = "measure" /\ Len(n) > 4
  THEN {Ascii(n)} \cup (IF Millions(n) \/ Round(n) THEN {WanForm(n)} ELSE {}) \cup (IF Round(n) THEN {Ascii(WanPart(n)) \o <<87>>} ELSE {})
  ELSE IF ~Millions(n) THEN {Ascii(n)}
  ELSE IF ~o.million THEN {WanForm(n)} ELSE {Ascii(n)}
===============================================================================
