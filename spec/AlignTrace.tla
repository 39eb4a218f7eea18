------------------------------ MODULE AlignTrace ------------------------------
(* Judges recorded span tracing on known transduction paths (C11). *)
EXTENDS AlignRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Expected(r) ==
  IF Consumed(r.arcs) # Utf8(r.input) \/ Produced(r.arcs) # Utf8(r.output) THEN Refused
  ELSE IF r.kind = "fwd" THEN ForwardSpans(r.arcs, r.input, r.output, r.spans)
  ELSE BackwardSpans(r.arcs, r.input, r.output, r.spans)
Clause(r) ==
  LET e == Expected(r) IN
  IF r.exc \notin {"", "AlignmentError", "ValueError"} THEN "failed in an undocumented way"
  ELSE IF ~e.ok THEN (IF r.exc = "" THEN "traced what cannot be traced" ELSE "")
  ELSE IF r.exc # "" THEN "refused a traceable path"
  ELSE IF r.out # e.out THEN "followed another output"
  ELSE IF r.got # e.spans THEN "spans"
  ELSE ""
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
