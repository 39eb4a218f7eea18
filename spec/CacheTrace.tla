------------------------------ MODULE CacheTrace ------------------------------
(* Judges recorded runs of real constructors (gated at the system-call level) by the
   rules of the bundle store.  See checks/cache.py for how the records are made. *)
EXTENDS CacheRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
ToSet(s) == {s[k] : k \in 1..Len(s)}

(* ---- C01.  r.finals: bundle under the final name before each step of the dying
   constructor and right after its death (or after the power cut); r.kept: some complete
   bundle was published (durably) before; r.gens: generations that can exist; r.probe: the
   next construction, of generation r.pgen, without overwrite; r.second: one more that has
   to take the lock (overwrite), of generation r.sgen; r.left: residuals after it *)
CrashClause(r) ==
  IF ~r.probe_alive \/ ~r.second_alive THEN "the next construction did not end"
  ELSE IF ~Usable(r.probe) THEN "the next construction failed or works with mixed or partial graphs"
  ELSE IF r.probe.t \notin ToSet(r.gens) \cup {r.pgen} THEN "the next construction works with unknown graphs"
  ELSE IF r.probe.built /\ r.probe.t # r.pgen THEN "the next construction built but works with something else"
  ELSE IF r.kept /\ r.probe.built THEN "a published bundle was lost"
  ELSE IF r.kept /\ r.probe.t = r.pgen THEN "a published bundle was lost"
  ELSE IF Complete(r.finals[Len(r.finals)]) /\ (r.probe.built \/ r.probe.t # r.finals[Len(r.finals)])
       THEN "a bundle whose publication had finished was not found"
  ELSE IF ~r.power /\ ~NeverHalfWritten(r.finals) THEN "a half-written bundle under the final name"
  ELSE IF ~r.power /\ ~KeepsWithoutOverwrite(r.finals, r.ow) THEN "a complete bundle was displaced without overwrite"
  ELSE IF r.probelocked /\ r.probeleft # 0 THEN "leftovers of the dead process remain"
  ELSE IF ~Usable(r.second) \/ r.second.t # r.sgen \/ ~r.second.built THEN "an overwriting construction after the crash failed"
  ELSE IF r.left # 0 THEN "leftovers of the dead process remain"
  ELSE IF ~r.lockfree THEN "the lock is still taken"
  ELSE ""

(* ---- C04.  One constructor (r.ow, r.gen) with one failing step in a directory whose final
   bundle was r.before; r.o its outcome; r.after the final bundle afterwards; r.lockfree
   observed while the failed process is still alive; r.probe the next fault-free one *)
FaultClause(r) ==
  IF ~r.alive THEN "the constructor died or hung on an I/O error"
  ELSE IF ~Sound(r.o) THEN "returned partial or mixed graphs after an I/O error"
  ELSE IF r.o.exc = "" /\ r.o.t \notin {r.before, r.gen} \cup ToSet(r.gens) THEN "returned unknown graphs after an I/O error"
  ELSE IF r.o.exc = "" /\ r.ow /\ r.o.t # r.gen THEN "an overwriting constructor swallowed its failure and returned old graphs"
  ELSE IF r.o.exc = "BaseException" THEN "raised something that is not an error"
  ELSE IF ~NeverHalfWritten(r.finals) THEN "a partial bundle under the final name"
  ELSE IF Complete(r.before) /\ ~Complete(r.finals[Len(r.finals)]) THEN "a failed replacement did not put the old bundle back"
  ELSE IF ~r.lockfree THEN "the lock is still taken after the constructor returned"
  ELSE IF ~r.probe_alive \/ ~Usable(r.probe) THEN "the next fault-free construction failed"
  ELSE IF r.ow /\ Complete(r.before) /\ (r.probe.built \/ r.probe.t \notin {r.before, r.gen} \cup ToSet(r.gens)) THEN "the old bundle was lost by a failed replacement"
  ELSE IF ~r.second_alive \/ ~Usable(r.second) \/ r.second.t # r.sgen THEN "a later overwriting construction failed"
  ELSE ""

(* ---- C02.  Several constructors under one schedule.  r.outs their outcomes, r.ows who
   overwrites, r.gens their generations, r.before the bundle at the start, r.marks the
   totally ordered events <<process, kind>> with kind 1 = works on the bundle (builds or
   modifies), 2 = leaves the locked region *)
RECURSIVE Sections(_, _, _)
(* walks the events: `busy` is the process inside a working section, 0 if none; a section
   of p lasts from its first work event to its last one before it leaves *)
LastWork(m, p, k) == LET later == {j \in (k + 1)..Len(m) : m[j][1] = p}
                         leaves == {j \in later : m[j][2] = 2}
                         upto == IF leaves = {} THEN Len(m) + 1 ELSE CHOOSE j \in leaves : \A x \in leaves : j <= x
                     IN \E j \in later : j < upto /\ m[j][2] = 1
Sections(m, k, busy) ==
  IF k > Len(m) THEN TRUE
  ELSE IF m[k][2] = 2 THEN Sections(m, k + 1, IF busy = m[k][1] THEN 0 ELSE busy)
  ELSE IF busy # 0 /\ busy # m[k][1] THEN FALSE
  ELSE Sections(m, k + 1, IF LastWork(m, m[k][1], k) THEN m[k][1] ELSE 0)
Builders(r) == {p \in 1..Len(r.outs) : r.outs[p].built}
SchedClause(r) ==
  LET P == 1..Len(r.outs) IN
  IF ~r.alive THEN "a constructor did not end"
  ELSE IF \E p \in P : ~Usable(r.outs[p]) THEN "a constructor failed or works with a mixed pair"
  ELSE IF \E p \in P : r.outs[p].t # r.before /\ ~\E q \in Builders(r) : r.outs[p].t = r.gens[q] THEN "a constructor works with graphs nobody published"
  ELSE IF ~Sections(r.marks, 1, 0) THEN "two constructors built or modified the bundle at the same time"
  ELSE IF (\A p \in P : ~r.ows[p]) /\ Cardinality(Builders(r)) # (IF Complete(r.before) THEN 0 ELSE 1) THEN "not exactly one constructor built"
  ELSE IF (\A p \in P : ~r.ows[p]) /\ \E p, q \in P : r.outs[p].t # r.outs[q].t THEN "constructors disagree"
  ELSE IF \E p \in P : r.ows[p] /\ ~r.outs[p].built THEN "an overwriting constructor did not build"
  ELSE IF ~Complete(r.after) THEN "no complete bundle at the end"
  ELSE ""

Clause(r) == CASE r.kind = "crash" -> CrashClause(r)
               [] r.kind = "fault" -> FaultClause(r)
               [] r.kind = "sched" -> SchedClause(r)
               [] OTHER -> "unknown record"
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
