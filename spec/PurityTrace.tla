------------------------------ MODULE PurityTrace ------------------------------
(* Judges recorded calls (C13).
   kind "history": r.calls = the calls of one history in starting order, each with the number of
     its result and of the result of the same call in a pristine process;
   kind "same": r.ids = numbers of the result of one call under several constructions;
   kind "total": r.pipe, r.text, r.exc of a plain normalization;
   kind "empty": the results for the empty text;
   kind "least": r.tags = the cheapest taggings, each <<cost, cheapest reading, cost of the output>>
     in ten-thousandths (-1 = impossible) *)
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Tolerance == 20
Sentence == {32, 33, 39, 40, 41, 44, 45, 46, 58, 59, 63}
(* words and numbers separated by spaces or sentence punctuation *)
EnglishTN(t) == /\ \A k \in 1..Len(t) : IsAsciiLetter(t[k]) \/ IsDigit(t[k]) \/ t[k] \in Sentence
                /\ \E k \in 1..Len(t) : t[k] # 32
EnglishITN(t) == /\ \A k \in 1..Len(t) : IsAsciiLetter(t[k]) \/ IsDigit(t[k]) \/ t[k] \in Sentence
                 /\ \E k \in 1..Len(t) : t[k] # 32
InScope(pipe, t) == IF pipe = "et" THEN EnglishTN(t)
                    ELSE IF pipe = "ei" THEN EnglishITN(t)
                    ELSE \A k \in 1..Len(t) : t[k] # 0 /\ ~(t[k] >= 55296 /\ t[k] <= 57343)
LeastPlain(tags) ==
  \E k \in 1..Len(tags) : /\ \A j \in 1..Len(tags) : tags[k][1] <= tags[j][1] + Tolerance
                          /\ tags[k][3] # -1 /\ tags[k][3] <= tags[k][2] + Tolerance
Clause(r) ==
  CASE r.kind = "history" ->
         IF \A k \in 1..Len(r.calls) : r.calls[k].got = r.calls[k].ref THEN ""
         ELSE "a call depends on what happened before or at the same time"
    [] r.kind = "same" -> IF \A k \in 1..Len(r.ids) : r.ids[k] = r.ids[1] THEN "" ELSE "the result depends on how or when the processor was made"
    [] r.kind = "total" -> IF InScope(r.pipe, r.text) /\ r.exc # "" THEN "a text is not normalized" ELSE ""
    [] r.kind = "empty" -> IF \A k \in 1..Len(r.ok) : r.ok[k] THEN "" ELSE "the empty text is not normalized to itself"
    [] r.kind = "least" -> IF r.exc = "" /\ ~LeastPlain(r.tags) THEN "the plain result is no cheapest reading of a cheapest tagging" ELSE ""
    [] OTHER -> "unknown record"
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
