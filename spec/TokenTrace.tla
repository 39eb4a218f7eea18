------------------------------ MODULE TokenTrace ------------------------------
(* Judges recorded parses of the real parsers against TokenStream.  One initial
   state per record; the verdict is total and names the failing clause. *)
EXTENDS TokenStream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase

OrdersOf(r) ==
  CASE r.tbl = "zh" -> ZhTN
    [] r.tbl = "ja" -> ZhTN
    [] r.tbl = "en" -> EnTN
    [] r.tbl = "itn" -> EnITN
    [] OTHER -> TLCEval({ [n |-> r.orders[k][1], o |-> r.orders[k][2]] : k \in 1..Len(r.orders) })

Names(t) == TLCEval([k \in 1..Len(t) |-> t[k].n])
Keys(t) == TLCEval([k \in 1..Len(t) |-> TLCEval([j \in 1..Len(t[k].f) |-> t[k].f[j][1]])])

(* r.kind: "parse" (Python parser), "cpp" (C++ runtime), "enc" (harness-encoded tokens), *)
(* "wire" (field graphs of the processor base class)                                      *)
ParseClause(r) ==
  LET m == Run(r.in) IN
  IF r.exc \notin {"", "TokenParseError"} THEN "raised something else than the parse error"
  ELSE IF Accepts(r.in, m) /\ r.exc # "" THEN "rejected a well-formed stream"
  ELSE IF ~Accepts(r.in, m) /\ r.exc = "" THEN "accepted a malformed stream"
  ELSE IF r.exc # "" THEN ""
  ELSE IF Len(r.toks) # Len(m.toks) THEN "token count"
  ELSE IF Names(r.toks) # Names(m.toks) THEN "token names"
  ELSE IF Keys(r.toks) # Keys(m.toks) THEN "field names or their order"
  ELSE IF \E k \in 1..Len(r.toks) : r.toks[k].f # m.toks[k].f THEN "field values"
  ELSE IF r.spanned /\ \E k \in 1..Len(r.toks) : r.toks[k] # m.toks[k] THEN "token source spans"
  ELSE ""

ReorderClause(r) ==
  LET m == Run(r.in)
      ord == OrdersOf(r) IN
  IF ~Accepts(r.in, m) THEN (IF r.exc = "" THEN "reordered a malformed stream" ELSE "")
  ELSE IF r.exc # "" THEN "failed to reorder a well-formed stream"
  ELSE IF r.reo # Reorder(m.toks, ord) THEN "reordered text"
  ELSE IF r.spanned /\ r.spans # Spans(m.toks, ord) THEN "spans in the reordered text"
  ELSE ""

(* r.intended: the tokens a writer serialized into r.in; the automaton itself must read
   them back, and so must the parser *)
IntendedClause(r) ==
  LET m == Run(r.in) IN
  IF ~Accepts(r.in, m) THEN "written stream is not in the grammar"
  ELSE IF TLCEval([k \in 1..Len(m.toks) |-> <<m.toks[k].n, m.toks[k].f>>]) # r.intended THEN "written tokens differ from intended"
  ELSE ""

(* field graphs: value -> wire field -> value; `r.in` is the wire text of one token *)
WireClause(r) ==
  IF r.exc # "" THEN "field graph has no path"
  ELSE LET m == Run(r.in) IN
       IF ~Accepts(r.in, m) THEN "field graph wrote a malformed token"
       ELSE IF Len(m.toks) # 1 \/ m.toks[1].f # << <<T("value"), r.value>> >> THEN "field graph lost the value"
       ELSE IF r.back # r.value THEN "field graph read back another value"
       ELSE ""

(* escape_value and the token printer are judged through re-encoding *)
Clause(r) ==
  CASE r.kind = "parse" -> ParseClause(r)
    [] r.kind = "reorder" -> ReorderClause(r)
    [] r.kind = "intended" -> IntendedClause(r)
    [] r.kind = "wire" -> WireClause(r)
    [] r.kind = "esc" -> IF r.back # Esc(r.in) THEN "escaping" ELSE ""
    [] OTHER -> "unknown record"

Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
