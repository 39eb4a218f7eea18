----------------------------- MODULE MappingRules -----------------------------
(* C12: what a list of normalization mappings must satisfy.  A mapping is
   <<kind, input start, input end, output start, output end, input text, output text>>. *)
EXTENDS Text

Kind(src, spoken) == IF src = spoken THEN "equal" ELSE IF spoken = <<>> THEN "delete" ELSE "replace"
Bounded(m, in, out) == m[2] >= 0 /\ m[2] < m[3] /\ m[3] <= Len(in) /\ m[4] >= 0 /\ m[4] <= m[5] /\ m[5] <= Len(out)
Quotes(m, in, out) == m[6] = Slice(in, m[2], m[3]) /\ m[7] = Slice(out, m[4], m[5])
Labelled(m) == m[1] = Kind(m[6], m[7])
InOrder(ms) == \A k \in 1..(Len(ms) - 1) : ms[k][3] <= ms[k + 1][2] /\ ms[k][5] <= ms[k + 1][4]
(* the stretches of a text that no mapping covers: lo and hi are the positions of the two ends *)
Gaps(ms, text, lo, hi) == TLCEval([k \in 1..(Len(ms) + 1) |->
  Slice(text, IF k = 1 THEN 0 ELSE ms[k - 1][hi], IF k > Len(ms) THEN Len(text) ELSE ms[k][lo])])
Blank(t) == \A k \in 1..Len(t) : t[k] \in PySpace
Complete(ms, in, out) == (\A k \in 1..(Len(ms) + 1) : Blank(Gaps(ms, in, 2, 3)[k])) /\ (\A k \in 1..(Len(ms) + 1) : Blank(Gaps(ms, out, 4, 5)[k]))
Unequal(ms) == SelectSeq(ms, LAMBDA m : m[1] # "equal")

Sound(ms, in, out) == /\ \A k \in 1..Len(ms) : Bounded(ms[k], in, out)
                      /\ \A k \in 1..Len(ms) : Quotes(ms[k], in, out) /\ Labelled(ms[k])
                      /\ InOrder(ms)
(* ms lists every token *)
Exact(ms, in, out) == Sound(ms, in, out) /\ Complete(ms, in, out)

NoBlanks(t) == SelectSeq(t, LAMBDA c : c \notin PySpace)
(* the input with every mapped slice replaced by its output *)
RECURSIVE Rebuild(_, _, _, _)
Rebuild(ms, in, k, at) == IF k > Len(ms) THEN Slice(in, at, Len(in))
                          ELSE Slice(in, at, ms[k][2]) \o ms[k][7] \o Rebuild(ms, in, k + 1, ms[k][3])
===============================================================================
