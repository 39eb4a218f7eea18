------------------------------ MODULE CacheLock ------------------------------
(* Design of the key lock in discrete time: actors try, poll while it is busy, give up at
   their deadline; holders release or die.  Time passes only when no actor is due. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Actors, Timeouts, MaxNow, Poll
Slack == Poll
VARIABLES now, st, due, dead, holder, asked, freeSince
vars == <<now, st, due, dead, holder, asked, freeSince>>
(* st: idle, try (wants to try now), sleep (until due), hold, out (gave up), gone *)
Init == /\ now = 0 /\ st = [a \in Actors |-> "idle"] /\ due = [a \in Actors |-> 0]
        /\ dead = [a \in Actors |-> 0] /\ holder = 0 /\ asked = [a \in Actors |-> 0] /\ freeSince = 0
Min(a, b) == IF a < b THEN a ELSE b
Request(a, t) == /\ st[a] = "idle" /\ st' = [st EXCEPT ![a] = "try"] /\ dead' = [dead EXCEPT ![a] = now + t]
                 /\ asked' = [asked EXCEPT ![a] = now] /\ UNCHANGED <<now, due, holder, freeSince>>
Try(a) ==
  /\ st[a] = "try"
  /\ IF holder = 0 THEN st' = [st EXCEPT ![a] = "hold"] /\ holder' = a /\ UNCHANGED due
     ELSE /\ UNCHANGED holder
          /\ IF now >= dead[a] THEN st' = [st EXCEPT ![a] = "out"] /\ UNCHANGED due
             ELSE st' = [st EXCEPT ![a] = "sleep"] /\ due' = [due EXCEPT ![a] = now + Min(Poll, dead[a] - now)]
  /\ UNCHANGED <<now, dead, asked, freeSince>>
Wake(a) == st[a] = "sleep" /\ now >= due[a] /\ st' = [st EXCEPT ![a] = "try"] /\ UNCHANGED <<now, due, dead, holder, asked, freeSince>>
Leave(a) == st[a] = "hold" /\ st' = [st EXCEPT ![a] = "gone"] /\ holder' = 0 /\ freeSince' = now /\ UNCHANGED <<now, due, dead, asked>>
Tick == /\ now < MaxNow /\ now' = now + 1
        /\ \A a \in Actors : st[a] # "try" /\ ~(st[a] = "sleep" /\ now >= due[a])
        /\ UNCHANGED <<st, due, dead, holder, asked, freeSince>>
Next == Tick \/ \E a \in Actors : Try(a) \/ Wake(a) \/ Leave(a) \/ \E t \in Timeouts : Request(a, t)
Spec == Init /\ [][Next]_vars
Mutex == \A a, b \in Actors : (st[a] = "hold" /\ st[b] = "hold") => a = b
HolderIs == holder # 0 <=> \E a \in Actors : st[a] = "hold"
NotEarly == \A a \in Actors : st[a] = "out" => now >= dead[a]
Soon == \A a \in Actors : st[a] \in {"try", "sleep"} => now <= dead[a] + Slack
HandedOver == holder = 0 => \A a \in Actors : st[a] \in {"try", "sleep"} => (now - freeSince <= Slack \/ now - asked[a] <= Slack)
===============================================================================
