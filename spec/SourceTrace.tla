------------------------------ MODULE SourceTrace ------------------------------
(* Judges recorded fingerprints: within a record, r.trees[k] is the tree (a sequence of
   <<components, suffix, content>>) whose fingerprint was r.fps[k]. *)
EXTENDS SourceTree, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
View(t) == TLCEval({ <<t[k][1], t[k][3]>> : k \in {j \in 1..Len(t) : Production(t[j][1], t[j][2])} })
Clause(r) ==
  LET v == TLCEval([k \in 1..Len(r.trees) |-> View(r.trees[k])]) IN
  IF \E k \in 1..Len(r.excs) : r.excs[k] # "" THEN "no fingerprint for a source tree"
  ELSE IF \E a, b \in 1..Len(v) : a < b /\ v[a] = v[b] /\ r.fps[a] # r.fps[b] THEN "same production sources, different fingerprints"
  ELSE IF \E a, b \in 1..Len(v) : a < b /\ v[a] # v[b] /\ r.fps[a] = r.fps[b] THEN "different production sources, same fingerprint"
  ELSE ""
JInit == i \in 1..Len(Trace) /\ phase = "recorded" /\ tree = 0 /\ hist = 0 /\ n = 0
JNext == /\ phase = "recorded"
         /\ phase' = "judged" /\ i' = i /\ UNCHANGED <<tree, hist, n>>
         /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
JSpec == JInit /\ [][JNext]_<<i, phase, tree, hist, n>>
===============================================================================
