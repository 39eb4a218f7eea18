----------------------------- MODULE TokenStream -----------------------------
(***************************************************************************)
(* The tagged-token wire format of WeTextProcessing, as a character-driven *)
(* automaton.  A tagged text is a sequence of                              *)
(*        name { key: "value" key: "value" }                               *)
(* with `\` and `"` escaped by `\` inside values.  `Step` consumes one     *)
(* character; the parser of the implementation must accept exactly the     *)
(* texts `Run` accepts and produce the same tokens.  `Reorder` is the      *)
(* serializer with the pipeline's canonical field order.                   *)
(*                                                                         *)
(* This module is the single source: MCTokenStream explores it             *)
(* exhaustively, TokenGen turns its control graph into replayable inputs,  *)
(* TokenTrace judges recorded parses of the Python and C++ parsers.        *)
(***************************************************************************)
EXTENDS Text

(* ------------------------------ state ---------------------------------- *)
(* pc : where the automaton is                                             *)
(*   "W"  between tokens             "F"  inside a token, between fields    *)
(*   "N"  in a token name            "K"  in a field key                    *)
(*   "O1" `{` expected               "C1" ' ' expected after `:`            *)
(*   "O2" ' ' expected after `{`     "C2" opening quote expected            *)
(*   "V"  in a value                 "E"  after a backslash in a value      *)
(*   "X"  malformed (absorbing)                                            *)
(* Code points of names are kept as sequences like all text.               *)
Start == [pc |-> "W", pos |-> 0, start |-> 0, name |-> <<>>, key |-> <<>>, val |-> <<>>,
          fields |-> <<>>, toks |-> <<>>]

IsKeyChar(c) == IsAsciiLetter(c) \/ c = 95
Dead(s) == [Start EXCEPT !.pc = "X"]
HasKey(fields, k) == \E i \in 1..Len(fields) : fields[i][1] = k

StepW(s, c) ==
  IF c = Space THEN s
  ELSE IF IsKeyChar(c) THEN [s EXCEPT !.pc = "N", !.name = <<c>>, !.start = s.pos]
  ELSE Dead(s)

StepN(s, c) ==
  IF IsKeyChar(c) THEN [s EXCEPT !.name = Append(@, c)]
  ELSE IF c = Space THEN [s EXCEPT !.pc = "O1"]
  ELSE Dead(s)

StepExpect(s, c, want, next) == IF c = want THEN [s EXCEPT !.pc = next] ELSE Dead(s)

StepF(s, c) ==
  IF c = Space THEN s
  ELSE IF c = RBrace
       THEN [s EXCEPT !.pc = "W", !.name = <<>>, !.fields = <<>>, !.start = 0,
                      !.toks = Append(@, [n |-> s.name, f |-> s.fields, s |-> s.start, e |-> s.pos + 1])]
  ELSE IF IsKeyChar(c) THEN [s EXCEPT !.pc = "K", !.key = <<c>>]
  ELSE Dead(s)

StepK(s, c) ==
  IF IsKeyChar(c) THEN [s EXCEPT !.key = Append(@, c)]
  ELSE IF c = Colon THEN [s EXCEPT !.pc = "C1"]
  ELSE Dead(s)

StepV(s, c) ==
  IF c = Quote
  THEN IF HasKey(s.fields, s.key) THEN Dead(s)
       ELSE [s EXCEPT !.pc = "F", !.fields = Append(@, <<s.key, s.val>>), !.key = <<>>, !.val = <<>>]
  ELSE IF c = Backslash THEN [s EXCEPT !.pc = "E"]
  ELSE [s EXCEPT !.val = Append(@, c)]

StepE(s, c) ==
  IF c = Quote \/ c = Backslash THEN [s EXCEPT !.pc = "V", !.val = Append(@, c)]
  ELSE [s EXCEPT !.pc = "V", !.val = @ \o <<Backslash, c>>]

StepCore(s, c) ==
  CASE s.pc = "W" -> StepW(s, c)
    [] s.pc = "N" -> StepN(s, c)
    [] s.pc = "O1" -> StepExpect(s, c, LBrace, "O2")
    [] s.pc = "O2" -> StepExpect(s, c, Space, "F")
    [] s.pc = "F" -> StepF(s, c)
    [] s.pc = "K" -> StepK(s, c)
    [] s.pc = "C1" -> StepExpect(s, c, Space, "C2")
    [] s.pc = "C2" -> StepExpect(s, c, Quote, "V")
    [] s.pc = "V" -> StepV(s, c)
    [] s.pc = "E" -> StepE(s, c)
    [] OTHER -> s

Step(s, c) == LET n == StepCore(s, c) IN IF n.pc = "X" THEN n ELSE [n EXCEPT !.pos = s.pos + 1]

Run(text) == FoldLeft(Step, Start, text)
Accepts(text, s) == text # <<>> /\ s.pc = "W"

(* ---------------------------- serialization ---------------------------- *)
EscChar(c) == IF c = Backslash \/ c = Quote THEN <<Backslash, c>> ELSE <<c>>
Esc(v) == MapCat(EscChar, v)
EncField(f) == <<Space>> \o f[1] \o <<Colon, Space, Quote>> \o Esc(f[2]) \o <<Quote>>
EncToken(name, fields) == name \o <<Space, LBrace>> \o MapCat(EncField, fields) \o <<Space, RBrace>>
EncTokens(toks) == Join(<<Space>>, TLCEval([i \in 1..Len(toks) |-> EncToken(toks[i].n, toks[i].f)]))

(* ----------------------------- reordering ------------------------------ *)
(* orders: a set of [n |-> token name, o |-> sequence of keys], as texts.  *)
PreserveKey == T("preserve_order")
TrueText == T("true")
Preserves(fields) == \E i \in 1..Len(fields) : fields[i] = <<PreserveKey, TrueText>>

Pick(fields, k) == SelectSeq(fields, LAMBDA f : f[1] = k)
Ordered(tok, orders) ==
  LET mine == { x \in orders : x.n = tok.n } IN
  IF mine = {} \/ Preserves(tok.f) THEN tok.f
  ELSE LET order == (CHOOSE x \in mine : TRUE).o IN
       Cat(TLCEval([i \in 1..Len(order) |-> Pick(tok.f, order[i])]))
       \o SelectSeq(tok.f, LAMBDA f : ~ \E i \in 1..Len(order) : order[i] = f[1])

OutToks(toks, orders) == TLCEval([i \in 1..Len(toks) |-> [n |-> toks[i].n, f |-> Ordered(toks[i], orders)]])
Reorder(toks, orders) == EncTokens(OutToks(toks, orders))

(* the span of each token in the reordered text *)
Spans(toks, orders) ==
  LET o == OutToks(toks, orders)
      place(acc, t) == [off |-> acc.off + Len(EncToken(t.n, t.f)) + 1,
                        sp  |-> Append(acc.sp, <<acc.off, acc.off + Len(EncToken(t.n, t.f))>>)]
  IN FoldLeft(place, [off |-> 0, sp |-> <<>>], o).sp

(* ------------------ canonical orders of the six pipelines --------------- *)
K(ss) == TLCEval([i \in 1..Len(ss) |-> T(ss[i])])
O(n, ss) == [n |-> T(n), o |-> K(ss)]
ZhTN == TLCEval({ O("date", <<"year", "month", "day">>), O("fraction", <<"denominator", "numerator">>),
          O("measure", <<"denominator", "numerator", "value">>), O("money", <<"value", "currency">>),
          O("time", <<"noon", "hour", "minute", "second">>) })
EnTN == TLCEval({ O("date", <<"preserve_order", "text", "day", "month", "year">>),
          O("money", <<"integer_part", "fractional_part", "quantity", "currency_maj">>) })
EnITN == TLCEval({ O("date", <<"year", "month", "day", "preserve_order">>),
           O("fraction", <<"sign", "numerator", "denominator">>),
           O("measure", <<"numerator", "denominator", "value", "units">>),
           O("money", <<"currency", "value", "decimal", "quantity">>),
           O("time", <<"hour", "minute", "second", "noon", "zone">>),
           O("telephone", <<"country_code", "number_part">>),
           O("electronic", <<"username", "domain", "protocol">>) })
=============================================================================
