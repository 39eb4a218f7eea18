------------------------------ MODULE AlignRules ------------------------------
(* C11: who owns what on one transduction path.

   A path is a sequence of arcs <<il, ol>> over bytes, 0 meaning "nothing".  Everything is
   defined declaratively per arc, from the numbers of bytes consumed (I) and produced (O)
   before it; the walking cursor of spec/Alignment.tla is checked to compute the same. *)
EXTENDS Text

Bytes(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(text) == MapCat(Bytes, text)
(* for every byte: does it belong to a whitespace character *)
SpaceBytes(text) == MapCat(LAMBDA c : [k \in 1..Len(Bytes(c)) |-> c \in PySpace], text)
(* Edge[k + 1] is the byte offset of character position k, 0..Len(text) *)
RECURSIVE EdgeFrom(_, _, _)
EdgeFrom(text, k, off) == IF k > Len(text) THEN <<off>> ELSE <<off>> \o EdgeFrom(text, k + 1, off + Len(Bytes(text[k])))
Edge(text) == EdgeFrom(text, 1, 0)
(* the character position of a byte offset, or -1 inside a character *)
CharAt(edge, b) == IF \E k \in 1..Len(edge) : edge[k] = b THEN (CHOOSE k \in 1..Len(edge) : edge[k] = b) - 1 ELSE -1

Consumed(arcs) == TLCEval(SelectSeq([j \in 1..Len(arcs) |-> arcs[j][1]], LAMBDA x : x # 0))
Produced(arcs) == TLCEval(SelectSeq([j \in 1..Len(arcs) |-> arcs[j][2]], LAMBDA x : x # 0))
(* Before(arcs, s)[j] = bytes on side s before arc j *)
Before(arcs, s) == TLCEval(FoldLeft(LAMBDA acc, a : Append(acc, acc[Len(acc)] + (IF a[s] # 0 THEN 1 ELSE 0)), <<0>>, arcs))

(* -------- span lists *)
Ordered(spans, n) == \A k \in 1..Len(spans) : spans[k][1] >= (IF k = 1 THEN 0 ELSE spans[k - 1][2]) /\ spans[k][1] <= spans[k][2] /\ spans[k][2] <= n
NonEmpty(spans) == \A k \in 1..Len(spans) : spans[k][1] < spans[k][2]
ToBytes(spans, edge) == TLCEval([k \in 1..Len(spans) |-> <<edge[spans[k][1] + 1], edge[spans[k][2] + 1]>>])

Max2(a, b) == IF a > b THEN a ELSE b
Hull(S) == <<CHOOSE x \in S : \A y \in S : x <= y, (CHOOSE x \in S : \A y \in S : x >= y) + 1>>

(* -------- input spans to output spans.  b: byte spans of the tokens; sp: whitespace bytes
   of the output *)
EmitOwner(arc, i, o, b, sp) ==
  LET within == {k \in 1..Len(b) : IF arc[1] # 0 THEN b[k][1] <= i /\ i < b[k][2] ELSE b[k][1] < i /\ i < b[k][2]}
      past == {k \in 1..Len(b) : b[k][2] <= i} IN
  IF arc[2] = 0 THEN 0
  ELSE IF within # {} THEN CHOOSE k \in within : TRUE
  ELSE IF arc[1] # 0 THEN 0                                              (* produced from a separator *)
  ELSE IF b # <<>> /\ i = (IF b # <<>> THEN b[1][1] ELSE 0) THEN 1        (* before the first token's first byte *)
  ELSE IF sp[o + 1] THEN 0                                               (* a separator of the output *)
  ELSE IF past # {} THEN CHOOSE k \in past : \A m \in past : m <= k       (* delayed output *)
  ELSE 0
Placed(arcs, b, sp) ==
  LET I == Before(arcs, 1)  O == Before(arcs, 2)
      own == TLCEval([j \in 1..Len(arcs) |-> EmitOwner(arcs[j], I[j], O[j], b, sp)])
      at(k) == {O[j] : j \in {j \in 1..Len(arcs) : own[j] = k}}
      (* where the path stands when it starts to consume token k *)
      gate(k) == O[CHOOSE j \in 1..Len(arcs) : arcs[j][1] # 0 /\ I[j] = b[k][1]]
      RECURSIVE place(_, _)
      place(k, last) == IF k > Len(b) THEN <<>>
                        ELSE LET h == IF at(k) # {} THEN Hull(at(k)) ELSE <<Max2(gate(k), last), Max2(gate(k), last)>>
                             IN <<h>> \o place(k + 1, h[2])
  IN TLCEval(place(1, 0))

(* -------- output spans to input spans.  b: byte spans on the output; sp: whitespace bytes of
   the input *)
Taken(arcs, b, sp) ==
  LET I == Before(arcs, 1)  O == Before(arcs, 2)
      J == 1..Len(arcs)
      next(o) == LET S == {k \in 1..Len(b) : b[k][2] > o} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m
      inside(j, k) == b[k][1] <= O[j] /\ O[j] < b[k][2] /\ (O[j] # b[k][1] \/ arcs[j][2] # 0)
      dropped(j) == arcs[j][2] = 0 /\ sp[I[j] + 1]
      leadin(j, k) == arcs[j][2] # 0 /\ O[j] + 1 = b[k][1] /\ ~sp[I[j] + 1]
      firm(j) == IF arcs[j][1] = 0 THEN 0
                 ELSE LET k == next(O[j]) IN
                      IF k = 0 THEN 0
                      ELSE IF inside(j, k) THEN (IF dropped(j) THEN 0 ELSE k)
                      ELSE IF leadin(j, k) THEN k ELSE 0
      firms == TLCEval([j \in J |-> firm(j)])
      (* whitespace dropped inside a token counts only after the token consumed something *)
      own(j) == IF firms[j] # 0 THEN firms[j]
                ELSE IF arcs[j][1] = 0 THEN 0
                ELSE LET k == next(O[j]) IN
                     IF k # 0 /\ (IF k # 0 THEN inside(j, k) /\ \E m \in 1..(j - 1) : firms[m] = k ELSE FALSE) THEN k ELSE 0
      owns == TLCEval([j \in J |-> own(j)])
      at(k) == {I[j] : j \in {j \in J : owns[j] = k}}
  IN TLCEval([k \in 1..Len(b) |-> IF at(k) = {} THEN <<>> ELSE Hull(at(k))])

(* -------- the two functions: [ok, out, spans], spans over characters *)
Refused == [ok |-> FALSE, out |-> <<>>, spans |-> <<>>]
InChars(bspans, edge) == TLCEval([k \in 1..Len(bspans) |-> <<CharAt(edge, bspans[k][1]), CharAt(edge, bspans[k][2])>>])
Whole(cspans) == \A k \in 1..Len(cspans) : cspans[k][1] # -1 /\ cspans[k][2] # -1
ForwardSpans(arcs, input, output, spans) ==
  IF ~(Ordered(spans, Len(input)) /\ NonEmpty(spans)) THEN Refused
  ELSE LET b == ToBytes(spans, Edge(input))
           c == InChars(Placed(arcs, b, SpaceBytes(output)), Edge(output))
       IN IF Whole(c) THEN [ok |-> TRUE, out |-> output, spans |-> c] ELSE Refused
BackwardSpans(arcs, input, output, spans) ==
  IF ~Ordered(spans, Len(output)) THEN Refused
  ELSE LET b == ToBytes(spans, Edge(output))
           t == Taken(arcs, b, SpaceBytes(input))
       IN IF \E k \in 1..Len(t) : t[k] = <<>> THEN Refused
          ELSE LET c == InChars(t, Edge(input)) IN IF Whole(c) THEN [ok |-> TRUE, out |-> output, spans |-> c] ELSE Refused
===============================================================================
