------------------------------ MODULE MappingTrace ------------------------------
(* Judges recorded mapping-producing normalizations (C12). *)
EXTENDS MappingRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
(* r.input, r.plain: plain outputs; r.full / r.part: results with and without identities, each
   [in, out, ms, types, same]; r.names: token names of acceptable taggings of the first output *)
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
ResultClause(r, x, want) ==
  IF x.in # r.input THEN "result for another input"
  ELSE IF x.out # want THEN "output differs from plain normalization"
  ELSE IF ~x.same THEN "dictionary form differs"
  ELSE IF ~\A k \in 1..Len(x.ms) : Bounded(x.ms[k], r.input, want) THEN "mapping outside the texts"
  ELSE IF ~\A k \in 1..Len(x.ms) : Quotes(x.ms[k], r.input, want) THEN "mapping misquotes the texts"
  ELSE IF ~\A k \in 1..Len(x.ms) : Labelled(x.ms[k]) THEN "mapping kind"
  ELSE IF ~InOrder(x.ms) THEN "mappings out of order or overlapping"
  ELSE ""
Clause(r) ==
  IF r.pexc # "" THEN (IF r.fexc = "" /\ r.nexc = "" THEN "mapped what cannot be normalized" ELSE "")
  ELSE IF r.modelled /\ r.plain # <<r.wanted>> THEN "not the output of the tokens"
  ELSE IF r.fexc # "" \/ r.nexc # "" THEN "failed to map what can be normalized"
  ELSE IF Len(r.full) # Len(r.plain) \/ Len(r.part) # Len(r.plain) THEN "number of results"
  ELSE LET bad == {k \in 1..Len(r.plain) : ResultClause(r, r.full[k], r.plain[k]) # ""}
           bad2 == {k \in 1..Len(r.plain) : ResultClause(r, r.part[k], r.plain[k]) # ""} IN
       IF bad # {} THEN ResultClause(r, r.full[CHOOSE k \in bad : TRUE], r.plain[CHOOSE k \in bad : TRUE])
       ELSE IF bad2 # {} THEN ResultClause(r, r.part[CHOOSE k \in bad2 : TRUE], r.plain[CHOOSE k \in bad2 : TRUE])
       ELSE IF \E k \in 1..Len(r.plain) : ~Complete(r.full[k].ms, r.input, r.plain[k]) THEN "text not covered by the mappings"
       ELSE IF \E k \in 1..Len(r.plain) : r.part[k].ms # Unequal(r.full[k].ms) THEN "wrong selection without identities"
       ELSE IF r.names # <<>> /\ ~\E k \in 1..Len(r.names) : r.names[k] = r.full[1].types THEN "token types"
       ELSE IF r.input # <<>> /\ NoBlanks(Rebuild(r.full[1].ms, r.input, 1, 0)) # NoBlanks(r.plain[1]) THEN "output cannot be rebuilt"
       ELSE IF r.modelled /\ r.full[1].ms # r.want THEN "not the mappings of the tokens"
       ELSE ""
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
