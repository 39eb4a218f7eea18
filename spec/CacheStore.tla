------------------------------ MODULE CacheStore ------------------------------
(* Design of the graph cache for one key: constructors (with or without overwrite) probe,
   lock, recover residuals, re-probe, quarantine, build, stage, move the old bundle away,
   publish, clean up, verify, unlock.  Any constructor may crash at any step (and be
   restarted), and any file-system step may fail. *)
EXTENDS CacheRules
CONSTANTS N, MaxCrash, MaxFault
Procs == 1..N
VARIABLES final, resid, lock, pc, ow, life, out, built, seen, ever, crashes, faults, init
vars == <<final, resid, lock, pc, ow, life, out, built, seen, ever, crashes, faults, init>>

Gen(p) == 10 * p + life[p]
Old == 100
Owner(p) == <<p, life[p]>>
Res(k, p, c) == [k |-> k, o |-> Owner(p), c |-> c]
Mine(k, p) == {r \in resid : r.k = k /\ r.o = Owner(p)}
Prevs == {r.c : r \in {x \in resid : x.k = "previous"}}
Exists(b) == final = b \/ \E r \in resid : r.c = b

Init ==
  /\ final \in {Absent, Junk, Old} /\ init = final
  /\ resid = {} /\ lock = 0
  /\ pc = [p \in Procs |-> "start"]
  /\ ow \in [Procs -> BOOLEAN]
  /\ life = [p \in Procs |-> 1]
  /\ out = [p \in Procs |-> [exc |-> "running", t |-> 0, v |-> 0]]
  /\ built = [p \in Procs |-> 0]
  /\ seen = [p \in Procs |-> 0]
  /\ ever = Complete(final) /\ crashes = 0 /\ faults = 0

Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Done(p, b) == out' = [out EXCEPT ![p] = [exc |-> "", t |-> b, v |-> b]]

(* reading a bundle takes two steps: binding the directory, then reading its files *)
ProbeOpen(p) ==
  /\ pc[p] = "start"
  /\ IF ow[p] \/ final = Absent THEN Go(p, "wait") /\ UNCHANGED seen
     ELSE Go(p, "probing") /\ seen' = [seen EXCEPT ![p] = final]
  /\ UNCHANGED <<final, resid, lock, ow, life, out, built, ever, crashes, faults, init>>
ProbeRead(p) ==
  /\ pc[p] = "probing"
  /\ IF Complete(seen[p]) /\ Exists(seen[p]) THEN Done(p, seen[p]) /\ Go(p, "done")
     ELSE UNCHANGED out /\ Go(p, "wait")
  /\ UNCHANGED <<final, resid, lock, ow, life, built, seen, ever, crashes, faults, init>>
Acquire(p) ==
  /\ pc[p] = "wait" /\ lock = 0 /\ lock' = p /\ Go(p, "recover")
  /\ UNCHANGED <<final, resid, ow, life, out, built, seen, ever, crashes, faults, init>>
Recover(p) ==
  /\ pc[p] = "recover" /\ Go(p, "sweep")
  /\ IF final = Absent /\ \E r \in resid : r.k = "previous" /\ Complete(r.c)
     THEN \E r \in resid : r.k = "previous" /\ Complete(r.c) /\ final' = r.c /\ resid' = resid \ {r}
     ELSE UNCHANGED <<final, resid>>
  /\ UNCHANGED <<lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Sweep(p) ==
  /\ pc[p] = "sweep"
  /\ IF resid = {} THEN Go(p, IF ow[p] THEN "build" ELSE "reload") /\ UNCHANGED resid
     ELSE \E r \in resid : resid' = resid \ {r} /\ UNCHANGED pc
  /\ UNCHANGED <<final, lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Reload(p) ==
  /\ pc[p] = "reload"
  /\ IF Complete(final) THEN Done(p, final) /\ Go(p, "unlock") ELSE Go(p, "quarantine") /\ UNCHANGED out
  /\ UNCHANGED <<final, resid, lock, ow, life, built, seen, ever, crashes, faults, init>>
Quarantine(p) ==
  /\ pc[p] = "quarantine" /\ Go(p, "drop")
  /\ IF final = Absent THEN UNCHANGED <<final, resid>>
     ELSE resid' = resid \cup {Res("corrupt", p, final)} /\ final' = Absent
  /\ UNCHANGED <<lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Drop(p) ==
  /\ pc[p] = "drop" /\ Go(p, "build") /\ resid' = resid \ Mine("corrupt", p)
  /\ UNCHANGED <<final, lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Build(p) ==
  /\ pc[p] = "build" /\ Go(p, "stage") /\ built' = [built EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<final, resid, lock, ow, life, out, seen, ever, crashes, faults, init>>
Stage(p) ==
  /\ pc[p] = "stage" /\ Go(p, "fill") /\ resid' = resid \cup {Res("tmp", p, Junk)}
  /\ UNCHANGED <<final, lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Fill(p) ==
  /\ pc[p] = "fill" /\ Go(p, "move") /\ resid' = (resid \ Mine("tmp", p)) \cup {Res("tmp", p, Gen(p))}
  /\ UNCHANGED <<final, lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Move(p) ==
  /\ pc[p] = "move" /\ Go(p, "publish")
  /\ IF final = Absent THEN UNCHANGED <<final, resid>>
     ELSE resid' = resid \cup {Res("previous", p, final)} /\ final' = Absent
  /\ UNCHANGED <<lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Publish(p) ==
  /\ pc[p] = "publish" /\ Go(p, "clean") /\ final' = Gen(p) /\ resid' = resid \ Mine("tmp", p) /\ ever' = TRUE
  /\ UNCHANGED <<lock, ow, life, out, built, seen, crashes, faults, init>>
Clean(p) ==
  /\ pc[p] = "clean" /\ Go(p, "verify") /\ resid' = resid \ Mine("previous", p)
  /\ UNCHANGED <<final, lock, ow, life, out, built, seen, ever, crashes, faults, init>>
Verify(p) ==
  /\ pc[p] = "verify" /\ Go(p, "unlock") /\ Done(p, final)
  /\ UNCHANGED <<final, resid, lock, ow, life, built, seen, ever, crashes, faults, init>>
Unlock(p) ==
  /\ pc[p] = "unlock" /\ Go(p, "done") /\ lock' = 0
  /\ UNCHANGED <<final, resid, ow, life, out, built, seen, ever, crashes, faults, init>>

Running(p) == pc[p] \notin {"done", "failed", "dead"}
(* the process disappears; the kernel drops its lock *)
Crash(p) ==
  /\ crashes < MaxCrash /\ Running(p) /\ crashes' = crashes + 1 /\ Go(p, "dead")
  /\ lock' = IF lock = p THEN 0 ELSE lock
  /\ UNCHANGED <<final, resid, ow, life, out, built, seen, ever, faults, init>>
Restart(p) ==
  /\ pc[p] = "dead" /\ Go(p, "start") /\ life' = [life EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<final, resid, lock, ow, out, built, seen, ever, crashes, faults, init>>
(* one file-system step fails: the constructor raises after undoing what it staged.  A
   failed publication restores the bundle it moved away; cleanup is best effort. *)
Raise(p) == out' = [out EXCEPT ![p] = [exc |-> "CacheError", t |-> 0, v |-> 0]]
Fault(p) ==
  /\ faults < MaxFault /\ faults' = faults + 1
  /\ \/ /\ pc[p] \in {"recover", "reload", "quarantine", "build", "verify"}
        /\ Raise(p) /\ Go(p, "failed") /\ lock' = 0 /\ UNCHANGED <<final, resid>>
     \/ /\ pc[p] \in {"stage", "fill", "move"}
        /\ Raise(p) /\ Go(p, "failed") /\ lock' = 0 /\ UNCHANGED final
        /\ resid' \in {resid, resid \ Mine("tmp", p)}
     \/ /\ pc[p] = "publish"
        /\ Raise(p) /\ Go(p, "failed") /\ lock' = 0
        /\ IF Mine("previous", p) = {} THEN UNCHANGED final /\ resid' = resid \ Mine("tmp", p)
           ELSE \E r \in Mine("previous", p) : final' = r.c /\ resid' = (resid \ {r}) \ Mine("tmp", p)
     \/ /\ pc[p] \in {"start", "probing"} /\ ~ow[p]
        /\ Go(p, "wait") /\ UNCHANGED <<out, lock, final, resid>>
     \/ /\ pc[p] = "wait" /\ Raise(p) /\ Go(p, "failed") /\ UNCHANGED <<lock, final, resid>>
     \/ /\ pc[p] = "clean" /\ Go(p, "verify") /\ UNCHANGED <<out, lock, final, resid>>
     \/ /\ pc[p] = "drop" /\ Go(p, "build") /\ UNCHANGED <<out, lock, final, resid>>
     \/ /\ pc[p] = "sweep" /\ Go(p, IF ow[p] THEN "build" ELSE "reload") /\ UNCHANGED <<out, lock, final, resid>>
  /\ UNCHANGED <<ow, life, built, seen, ever, crashes, init>>

Step(p) == ProbeOpen(p) \/ ProbeRead(p) \/ Acquire(p) \/ Recover(p) \/ Sweep(p) \/ Reload(p) \/ Quarantine(p) \/ Drop(p)
           \/ Build(p) \/ Stage(p) \/ Fill(p) \/ Move(p) \/ Publish(p) \/ Clean(p) \/ Verify(p) \/ Unlock(p)
Next == \E p \in Procs : Step(p) \/ Crash(p) \/ Restart(p) \/ Fault(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p)) /\ WF_vars(Restart(p))

-------------------------------------------------------------------------------
Critical == {"recover", "sweep", "reload", "quarantine", "drop", "build", "stage", "fill", "move", "publish", "clean", "verify", "unlock"}
TypeOK == final \in Int /\ lock \in 0..N
(* C02: at most one constructor builds or modifies *)
OneAtATime == \A p, q \in Procs : (pc[p] \in Critical /\ pc[q] \in Critical) => p = q
(* C01/C04: nothing but complete bundles is ever put under the final name *)
NoHalf == final = Junk => init = Junk
(* C01/C04: once published, a complete bundle is there or is recoverable *)
Survives == ever => Recoverable(final, Prevs)
(* C04: a failed replacement puts the old bundle back *)
InPlace == (crashes = 0 /\ faults <= 1 /\ init = Old /\ \A p \in Procs : pc[p] # "publish") => Complete(final)
(* C02/C04: outcomes are one whole bundle, of a build that ran (or the old one), or an error *)
Outcomes == \A p \in Procs : pc[p] = "done" =>
              /\ Usable(out[p])
              /\ out[p].t = Old \/ \E q \in Procs : out[p].t >= 10 * q /\ out[p].t < 10 * q + 10 /\ built[q] > 0
(* C02: without overwrites, crashes and faults exactly one constructor builds (none if cached) *)
BuildsOnce ==
  (crashes = 0 /\ faults = 0 /\ (\A p \in Procs : ~ow[p]) /\ \A p \in Procs : pc[p] = "done")
    => Cardinality({p \in Procs : built[p] = 1}) = (IF init = Old THEN 0 ELSE 1)
       /\ \A p, q \in Procs : out[p] = out[q]
(* C01: nothing of a dead constructor is left once somebody went through the lock *)
Swept == (faults = 0 /\ lock # 0 /\ pc[lock] \in {"reload", "quarantine", "build"}) => \A r \in resid : r.o = Owner(lock)
NoError == faults = 0 => \A p \in Procs : pc[p] # "failed"
(* every constructor ends, whoever dies on the way *)
Terminates == <>(\A p \in Procs : pc[p] \in {"done", "failed"})
===============================================================================
