------------------------------- MODULE OptionsMC -------------------------------
(* The options act independently: applying the chosen stages one after another, in any order in
   which brackets come last, is the same as applying them at once; what is switched off never
   shows; and processing twice changes nothing more. *)
EXTENDS Options
CONSTANTS MaxLen
VARIABLES lang, o, text
vars == <<lang, o, text>>
Stages == {"simple", "interj", "puncts", "half"}
Opts == [simple : BOOLEAN, interj : BOOLEAN, puncts : BOOLEAN, half : BOOLEAN, oov : BOOLEAN]
\* one character of every kind: han, kana, traditional, interjection, ASCII, CJK punctuation with and
\* without a half-width form, full-width letter, space, ideographic space, emoji, letters of other scripts
Alphabet == {20013, 12354, 22283, 21834, 65, 46, 12290, 65294, 65339, 12289, 8220, 65313, 32, 12288, 128512, 945, 60}
Orders == {<<a, b, c, d>> : a, b, c, d \in Stages} 
Perms == TLCEval({p \in Orders : Cardinality(Elements(p)) = 4})
RECURSIVE Each(_, _, _, _)
Each(l, st, t, k) == IF k > Len(t) THEN <<>> ELSE Stage(l, st, t[k]) \o Each(l, st, t, k + 1)
On(st) == CASE st = "simple" -> o.simple [] st = "interj" -> o.interj [] st = "puncts" -> o.puncts [] st = "half" -> o.half [] OTHER -> o.oov
Apply(st, t) == IF On(st) THEN Each(lang, st, t, 1) ELSE t
Chain(p, t) == Apply("oov", Apply(p[4], Apply(p[3], Apply(p[2], Apply(p[1], t)))))
Init == lang \in {"zh", "ja"} /\ o \in Opts /\ (lang = "ja" => ~o.simple) /\ text = <<>>
Next == \E c \in Alphabet : Len(text) < MaxLen /\ text' = Append(text, c) /\ UNCHANGED <<lang, o>>
Spec == Init /\ [][Next]_vars
AnyOrder == \A p \in Perms : Chain(p, text) = Post(lang, o, text)
Again == ~o.oov => Post(lang, o, Post(lang, o, text)) = Post(lang, o, text)
Shows(P(_)) == \E k \in 1..Len(Post(lang, o, text)) : P(Post(lang, o, text)[k])
Had(P(_)) == \E k \in 1..Len(text) : P(text[k])
NoPunct == (o.puncts /\ ~o.oov) => ~Shows(LAMBDA c : Punct(lang, c))
NoInterj == o.interj => ~Shows(LAMBDA c : Interj(lang, c))
NoFull == o.half => ~Shows(LAMBDA c : c \in 65281..65374)
NoTrad == o.simple => ~Shows(LAMBDA c : c \in Trad)
Nothing == (~o.simple /\ ~o.interj /\ ~o.puncts /\ ~o.half /\ ~o.oov) => Post(lang, o, text) = text
Brackets == ~o.oov => (Shows(LAMBDA c : c = 60) => Had(LAMBDA c : c \in {60, 65308}))
\* the tables themselves: every character of every table, for both languages
AllChars == TLCEval(Trad \cup PunctZh \cup PunctJa \cup (65281..65374) \cup {12290, 8220, 8221} \cup InterjZh \cup AsciiPunct \cup AsciiWord)
ASSUME \A c \in AllChars : \A l \in {"zh", "ja"} :
         /\ Punct(l, c) = Punct(l, Half(c)) /\ Interj(l, c) = Interj(l, Half(c))
         /\ (Half(c) # c => Half(Half(c)) = Half(c))
ASSUME \A c \in Trad : Simple(c) \notin Trad /\ ~Punct("zh", Simple(c)) /\ ~Interj("zh", Simple(c)) /\ Half(c) = c
ASSUME Cardinality(Trad) > 3000 /\ Cardinality(CharsetZh) > 8000 /\ Cardinality(CharsetJa) > 2500
===============================================================================
