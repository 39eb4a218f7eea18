------------------------------ MODULE NBestTrace ------------------------------
(* Judges recorded n-best lists (C10). *)
EXTENDS NBestRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Distinct(l) == \A j, k \in 1..Len(l) : j # k => l[j] # l[k]

(* r.rel the relation, r.runs[n] = [exc, out] the result for n = 1, 2, ...; r.plain the plain result *)
RelClause(r) ==
  LET some == Outputs(r.rel) # {} IN
  IF ~some THEN (IF \E n \in 1..Len(r.runs) : r.runs[n].exc = "" THEN "produced an output that does not exist" ELSE "")
  ELSE IF \E n \in 1..Len(r.runs) : r.runs[n].exc # "" THEN "failed although outputs exist"
  ELSE IF \E n \in 1..Len(r.runs) : ~Correct(r.rel, r.runs[n].out, n, r.slack) THEN "not the n best outputs"
  ELSE IF \E n \in 1..(Len(r.runs) - 1) : ~Prefix(r.runs[n].out, r.runs[n + 1].out) THEN "a longer list does not extend the shorter one"
  ELSE IF r.plain # <<r.runs[1].out[1]>> THEN "the plain result is not the best output"
  ELSE ""
(* the shipped pipelines: the same without knowing the relation *)
RealClause(r) ==
  IF \E n \in 1..Len(r.runs) : r.runs[n].exc # "" THEN "failed although outputs exist"
  ELSE IF \E n \in 1..Len(r.runs) : ~Distinct(r.runs[n].out) \/ Len(r.runs[n].out) > r.ns[n] \/ r.runs[n].out = <<>> THEN "repeated or too many outputs"
  ELSE IF \E n \in 1..(Len(r.runs) - 1) : ~Prefix(r.runs[n].out, r.runs[n + 1].out) THEN "a longer list does not extend the shorter one"
  ELSE IF \E n \in 1..(Len(r.runs) - 1) : Len(r.runs[n].out) < r.ns[n] /\ r.runs[n].out # r.runs[n + 1].out THEN "stopped although more outputs exist"
  ELSE IF r.plain # <<r.runs[1].out[1]>> THEN "the plain result is not the best output"
  ELSE ""
(* taggings alone: rel has one alternative per tagging *)
TagClause(r) == IF \E n \in 1..Len(r.runs) : r.runs[n].exc # "" THEN "tagging failed"
                ELSE IF \E n \in 1..Len(r.runs) : ~Correct(r.rel, r.runs[n].out, n, r.slack) THEN "not the n best taggings"
                ELSE IF r.plain # <<r.runs[1].out[1]>> /\ r.slack = 0 /\ Cost(r.rel, r.plain[1]) # Cost(r.rel, r.runs[1].out[1]) THEN "the plain tagging is not the best one"
                ELSE ""
RejectClause(r) == IF \E k \in 1..Len(r.runs) : r.runs[k].exc = "" THEN "an invalid n was accepted" ELSE ""
Clause(r) == CASE r.kind = "rel" -> RelClause(r) [] r.kind = "real" -> RealClause(r)
               [] r.kind = "tag" -> TagClause(r) [] r.kind = "reject" -> RejectClause(r)
               [] OTHER -> "unknown record"
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
