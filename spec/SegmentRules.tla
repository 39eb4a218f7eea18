----------------------------- MODULE SegmentRules -----------------------------
(* C14: a tagged text only segments the text that was written.  Read in order, the field values
   are consecutive disjoint pieces of the input; between them lies nothing but whitespace and,
   inside a token, the separator characters its type implies. *)
EXTENDS Text

(* fields that describe the reading of a token and need not be written anywhere *)
KPreserve == T("preserve_order")
KStyle == T("style")
KUnits == T("units")
KKind == T("kind")
VTrue == {T("true")}
VTo == {T("to")}
VAddress == {T("address")}
VKinds == {T("serial"), T("phone"), T("ip"), T("ssn"), T("credit_card")}
Implied(n, k, v) == IF k = KPreserve THEN v \in VTrue
                    ELSE IF k = KStyle THEN v \in VTo
                    ELSE IF k = KUnits THEN v \in VAddress
                    ELSE IF k = KKind THEN v \in VKinds ELSE FALSE
(* separator characters inside a token, by its type *)
Slash == 47  Dash == 45  Dot == 46  At == 64  FullColon == 65306
Separators == TLCEval([n \in {T("date"), T("fraction"), T("measure"), T("time"), T("decimal"), T("electronic"), T("money"), T("telephone")} |->
  CASE n = T("date") -> {Slash, Dash, Dot, 44}
    [] n = T("fraction") -> {Slash}
    [] n = T("measure") -> {Slash, Dot}
    [] n = T("time") -> {Colon, FullColon, Dot}
    [] n = T("decimal") -> {Dot}
    [] n = T("electronic") -> {At}
    [] n = T("money") -> {Dot}
    [] OTHER -> {Dash, 40, 41, 43, Dot}])
Separated == DOMAIN Separators
Inside(n) == IF n \in Separated THEN Separators[n] ELSE {}
(* a fraction of a number may begin with its point *)
FractionalPart == T("fractional_part")
Before(n, key) == IF key = FractionalPart THEN {Dot} ELSE {}

(* the fields of a tagged text, in order: [n, k, v, first] with first = first field of its token *)
RECURSIVE Slide(_, _, _, _)
(* positions reachable from P over whitespace and at most `left` of the separator characters in G *)
Slide(t, P, G, left) ==
  LET Q == TLCEval(P \cup {p + 1 : p \in {p \in P : p < Len(t) /\ (IF p < Len(t) THEN t[p + 1] \in PySpace ELSE FALSE)}}) IN
  IF Q # P THEN Slide(t, Q, G, left)
  ELSE IF left = 0 \/ G = {} THEN P
  ELSE LET S == TLCEval({p + 1 : p \in {p \in P : (IF p < Len(t) THEN t[p + 1] \in G ELSE FALSE)}}) IN
       IF S \subseteq P THEN P ELSE P \cup Slide(t, S, G, left - 1)
At2(t, p, v) == p + Len(v) <= Len(t) /\ (IF p + Len(v) <= Len(t) THEN \A k \in 1..Len(v) : t[p + k] = v[k] ELSE FALSE)
After(t, P, f) ==
  LET G == IF f.first THEN Before(f.n, f.k) ELSE Inside(f.n) \cup Before(f.n, f.k)
      R == Slide(t, P, G, 1)
      M == {p + Len(f.v) : p \in {p \in R : At2(t, p, f.v)}}
  IN TLCEval(IF Implied(f.n, f.k, f.v) THEN M \cup P ELSE M)
Reach(t, fields) == FoldLeft(LAMBDA P, f : After(t, P, f), {0}, fields)
Segments(t, fields) == Len(t) \in Slide(t, Reach(t, fields), {}, 0)
===============================================================================
