------------------------------ MODULE SegmentTrace ------------------------------
(* Judges recorded taggings (C14): r.input, r.tagged (parsed here by the token automaton),
   r.out the normalized text, r.whole = every token is a plain-text token of a pipeline without
   post-processing, whose text must come back unchanged. *)
EXTENDS SegmentRules, Json, IOUtils
TS == INSTANCE TokenStream
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Fields(toks) == TLCEval(Cat([k \in 1..Len(toks) |-> [j \in 1..Len(toks[k].f) |->
  [n |-> toks[k].n, k |-> toks[k].f[j][1], v |-> toks[k].f[j][2], first |-> j = 1]]]))
PlainNames == {T("char"), T("w"), T("word")}
Plain(toks) == \A k \in 1..Len(toks) : toks[k].n \in PlainNames
Words(t) == SelectSeq(t, LAMBDA c : c \notin PySpace)
Clause(r) ==
  IF r.exc # "" THEN "tagging failed"
  ELSE LET m == TS!Run(r.tagged) IN
       IF ~TS!Accepts(r.tagged, m) THEN "tagged text is malformed"
       ELSE IF ~Segments(r.input, Fields(m.toks)) THEN "the tagged fields are not the written text"
       ELSE IF r.whole /\ Plain(m.toks) /\ Words(r.out) # Words(r.input) THEN "plain text was changed"
       ELSE IF r.whole /\ Plain(m.toks) /\ r.tight /\ r.out # r.input THEN "whitespace of plain text was changed"
       ELSE ""
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
