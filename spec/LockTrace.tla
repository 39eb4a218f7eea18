------------------------------ MODULE LockTrace ------------------------------
(* Judges recorded uses of the real lock.  Times are milliseconds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase
Slack == 2000

(* timed waits: r.ev = events <<time, actor, kind>> in order, kinds "ask", "got", "left",
   "died", "timeout"; r.limit[a] = the actor's timeout *)
Start == [holder |-> 0, free |-> 0, ask |-> <<-1, -1, -1, -1>>, bad |-> ""]
Waiting(m) == {a \in 1..4 : m.ask[a] >= 0}
Later(a, b) == IF a > b THEN a ELSE b
StepEv(limit, m, e) ==
  LET t == e[1]  a == e[2]  k == e[3]
      idle == m.holder = 0 /\ \E w \in Waiting(m) : t - Later(m.free, m.ask[w]) > Slack
  IN IF m.bad # "" THEN m
     ELSE IF idle THEN [m EXCEPT !.bad = "a waiter did not get the free lock"]
     ELSE IF k = "ask" THEN [m EXCEPT !.ask[a] = t]
     ELSE IF k = "got" THEN IF m.holder # 0 THEN [m EXCEPT !.bad = "two holders"]
                            ELSE IF t - m.ask[a] > limit[a] + Slack THEN [m EXCEPT !.bad = "waited past its timeout"]
                            ELSE [m EXCEPT !.holder = a, !.ask[a] = -1]
     ELSE IF k \in {"left", "died"} THEN IF m.holder # a THEN m ELSE [m EXCEPT !.holder = 0, !.free = t]
     ELSE IF k = "timeout" THEN IF t - m.ask[a] < limit[a] THEN [m EXCEPT !.bad = "gave up before the timeout"]
                                ELSE IF t - m.ask[a] > limit[a] + Slack THEN [m EXCEPT !.bad = "gave up long after the timeout"]
                                ELSE IF m.holder = 0 /\ t - Later(m.free, m.ask[a]) > Slack THEN [m EXCEPT !.bad = "gave up although the lock was free"]
                                ELSE [m EXCEPT !.ask[a] = -1]
     ELSE [m EXCEPT !.bad = "unknown outcome of a waiter"]
TimedClause(r) ==
  IF ~r.alive THEN "a waiter hangs or died"
  ELSE LET m == FoldLeft(LAMBDA acc, e : StepEv(r.limit, acc, e), Start, r.ev)
       IN IF m.bad # "" THEN m.bad
          ELSE IF \E a \in 1..4 : m.ask[a] >= 0 THEN "a waiter got no answer"
          ELSE ""

(* zero-timeout histories: every attempt has the outcome the lock specification gives *)
HistClause(r) ==
  IF r.crashed # "" THEN "the driver process died unexpectedly"
  ELSE IF \E k \in 1..Len(r.hist) : r.hist[k].what = "try" /\ r.got[k] \notin {"got", "CacheLockTimeout"} THEN "an attempt failed with something else than the lock timeout"
  ELSE IF \E k \in 1..Len(r.hist) : r.hist[k].what = "try" /\ r.got[k] = "got" /\ ~r.hist[k].ok THEN "two holders at a time"
  ELSE IF \E k \in 1..Len(r.hist) : r.hist[k].what = "try" /\ r.got[k] # "got" /\ r.hist[k].ok THEN "the lock was not released"
  ELSE IF \E k \in 1..Len(r.hist) : r.hist[k].what = "leave" /\ r.got[k] # r.hist[k].how THEN "leaving the region changed how it was left"
  ELSE ""

(* timeouts: r.valid = a finite non-negative number *)
ConfClause(r) ==
  IF r.valid /\ r.exc # "" THEN "a valid timeout was refused"
  ELSE IF ~r.valid /\ r.exc = "" THEN "an invalid timeout was accepted"
  ELSE IF ~r.valid /\ r.exc = "Timeout" THEN "an invalid timeout hangs"
  ELSE IF ~r.valid /\ r.created THEN "something was created although the timeout is invalid"
  ELSE ""

(* arbitrary bytes in the lock file, seen by a waiter and by the next holder *)
BytesClause(r) ==
  IF r.exc # "CacheLockTimeout" THEN "the lock file's bytes changed the outcome of a waiter"
  ELSE IF ~r.names THEN "the timeout error does not name the lock"
  ELSE IF r.msglen > 1048576 THEN "unbounded diagnostic text"
  ELSE IF r.next # "" THEN "the lock file's bytes broke the next holder"
  ELSE ""

Clause(r) == CASE r.kind = "timed" -> TimedClause(r)
               [] r.kind = "hist" -> HistClause(r)
               [] r.kind = "conf" -> ConfClause(r)
               [] r.kind = "bytes" -> BytesClause(r)
               [] OTHER -> "unknown record"
Init == i \in 1..Len(Trace) /\ phase = "recorded"
Next == /\ phase = "recorded"
        /\ phase' = "judged" /\ i' = i
        /\ LET c == Clause(Trace[i]) IN c = "" \/ PrintT(<<"BAD", i, c>>)
Spec == Init /\ [][Next]_<<i, phase>>
===============================================================================
