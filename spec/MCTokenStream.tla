---------------------------- MODULE MCTokenStream ----------------------------
(* Exhaustive exploration of the automaton: every text made of up to MaxChunks
   chunks, with the wire-format properties as invariants. *)
EXTENDS TokenStream, Json
CONSTANTS MaxChunks, Emit
VARIABLES s, text, n

Chunks == { <<32>>, <<97>>, <<98>>, T(" { "), T(": ") \o <<34>>, <<34>>, <<92>>, <<125>>, <<123>>, <<58>>, <<233>>, <<10>>,
            T(" { a: ") \o <<34>> }
vars == <<s, text, n>>
Init == s = Start /\ text = <<>> /\ n = 0
Next == /\ n < MaxChunks /\ s.pc # "X"
        /\ \E c \in Chunks : /\ text' = text \o c
                             /\ s' = FoldLeft(Step, s, c)
                             /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Orders == { O("a", <<"b", "a">>) }
Fields(t) == [i \in 1..Len(t) |-> [n |-> t[i].n, f |-> t[i].f]]
Multiset(f) == { f[i] : i \in 1..Len(f) }

RoundTrip == Accepts(text, s) =>
   (s.toks = <<>> \/ LET w == EncTokens(s.toks) IN Fields(Run(w).toks) = Fields(s.toks) /\ Accepts(w, Run(w)))
Lossless == Accepts(text, s) =>
   \A i \in 1..Len(s.toks) : LET o == Ordered(s.toks[i], Orders) IN
        Len(o) = Len(s.toks[i].f) /\ Multiset(o) = Multiset(s.toks[i].f)
Idempotent == Accepts(text, s) =>
   LET once == OutToks(s.toks, Orders) IN OutToks(once, Orders) = once
SpansExact == Accepts(text, s) =>
   LET w == Reorder(s.toks, Orders)
       sp == Spans(s.toks, Orders)
       o == OutToks(s.toks, Orders) IN
   \A i \in 1..Len(sp) : Slice(w, sp[i][1], sp[i][2]) = EncToken(o[i].n, o[i].f)
SourceSpans == \A i \in 1..Len(s.toks) :
   /\ s.toks[i].s < s.toks[i].e /\ s.toks[i].e <= Len(text)
   /\ Slice(text, s.toks[i].s, s.toks[i].s + Len(s.toks[i].n)) = s.toks[i].n
   /\ i > 1 => s.toks[i - 1].e <= s.toks[i].s
NoDuplicateKeys == \A i, j \in 1..Len(s.fields) : s.fields[i][1] = s.fields[j][1] => i = j

(* generation: one representative text per abstract control state *)
Control == <<s.pc, IF Len(s.toks) > 1 THEN 2 ELSE Len(s.toks), IF Len(s.fields) > 1 THEN 2 ELSE Len(s.fields),
             IF Len(s.val) > 1 THEN 2 ELSE Len(s.val), IF Len(s.key) > 1 THEN 2 ELSE Len(s.key), s.key = <<97>>>>
EmitInv == Emit => PrintT(<<"GEN", ToJson(text)>>)
==============================================================================
