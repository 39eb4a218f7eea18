------------------------------- MODULE KeyTrace -------------------------------
(* Judges replayed identity histories, tampered bundles, option matrices and object layouts
   (C03, C05). *)
EXTENDS CacheRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase

(* r.want: the event of CacheIdentity with its predicted outcome; r.o the real outcome *)
Step1(w, o) ==
  IF w.what = "construct" THEN
       IF ~Usable(o) THEN "a constructor failed or works with mixed graphs"
       ELSE IF w.built /\ ~o.built THEN "a bundle of another identity or content was used"
       ELSE IF ~w.built /\ o.built THEN "an exactly matching bundle was not used"
       ELSE IF o.t # w.g THEN "works with graphs of another build"
       ELSE ""
  ELSE IF w.what = "changed" THEN
       IF o.exc = "" THEN "sources changed during the build and the result was used" ELSE ""
  ELSE ""
HistClause(r) ==
  LET bad == {k \in 1..Len(r.o) : Step1(r.want[k], r.o[k]) # ""} IN
  IF bad = {} THEN "" ELSE Step1(r.want[CHOOSE k \in bad : \A x \in bad : k <= x], r.o[CHOOSE k \in bad : \A x \in bad : k <= x])

(* r.same: both graph files are byte for byte the published ones and nothing is missing;
   r.o the outcome of a constructor of generation r.gen on the tampered bundle of generation r.old *)
TamperClause(r) ==
  IF ~Usable(r.o) THEN "a constructor failed on a tampered bundle"
  ELSE IF r.o.built /\ r.o.t # r.gen THEN "built but works with something else"
  ELSE IF ~r.o.built /\ r.o.t # r.old THEN "works with graphs nobody published"
  ELSE IF ~r.o.built /\ ~r.same THEN "tampered graphs were used"
  ELSE IF ~Usable(r.again) \/ r.again.built \/ r.again.t # r.o.t THEN "the bundle was not repaired"
  ELSE ""

(* one option matrix: r.keys[k] the option setting, r.built[k] whether the k-th constructor on a
   shared root built; r.excused[k]: its graphs are the same as an earlier one's *)
MatrixClause(r) ==
  IF \E k \in 1..Len(r.exc) : r.exc[k] # "" THEN "a constructor failed"
  ELSE IF \E k \in 1..Len(r.keys) : (\A j \in 1..(k - 1) : r.keys[j] # r.keys[k]) /\ ~r.built[k] /\ ~r.excused[k]
       THEN "a bundle of another configuration was used"
  ELSE IF \E k \in 1..Len(r.keys) : (\E j \in 1..(k - 1) : r.keys[j] = r.keys[k]) /\ r.built[k] THEN "the bundle of the same configuration was not used"
  ELSE ""

(* C05.  r.links: some component the constructor must go through is a link (or not what it
   should be); r.outside / r.foreign: changed entries outside the root / not of this key;
   r.ext: generation of the graphs reachable through links *)
LayoutClause(r) ==
  IF r.exc = "Timeout" THEN "a constructor hangs"
  ELSE IF r.outside # <<>> THEN "something outside the cache root was created, changed or deleted"
  ELSE IF r.foreign # <<>> THEN "something that does not belong to the key was changed or deleted"
  ELSE IF r.o.t = r.ext \/ r.o.v = r.ext THEN "graphs were loaded through a link"
  ELSE IF ~Sound(r.o) THEN "works with partial or mixed graphs"
  ELSE IF r.o.exc = "" /\ ~r.o.built /\ ~r.intact THEN "used something that is not the key's own intact bundle"
  ELSE ""

(* names: r.inside = the name denotes something strictly inside its root (by the path rules) *)
NameClause(r) ==
  IF r.exc = "Timeout" THEN "hangs"
  ELSE IF ~r.inside /\ r.exc = "" THEN "an escaping name was accepted"
  ELSE IF ~r.inside /\ r.touched THEN "an escaping name had effects"
  ELSE IF r.must /\ r.exc # "" THEN "a harmless name was refused"
  ELSE IF r.exc = "" /\ ~r.under THEN "a name was resolved to a place outside its root"
  ELSE ""

Clause(r) == CASE r.kind = "hist" -> HistClause(r)
               [] r.kind = "tamper" -> TamperClause(r)
               [] r.kind = "matrix" -> MatrixClause(r)
               [] r.kind = "layout" -> LayoutClause(r)
               [] r.kind = "name" -> NameClause(r)
               [] OTHER -> "unknown record"
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
