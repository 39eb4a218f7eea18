------------------------------ MODULE LockHist ------------------------------
(* All short histories of zero-timeout attempts, releases and deaths by threads of two
   processes on two keys, with the outcome of every attempt.  Printed for replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Len0
(* actors 1,2 are threads of process 1; actor 3 of process 2 *)
Actors == {1, 2, 3}
Proc(a) == IF a = 3 THEN 2 ELSE 1
Keys == {1, 2}
Ways == {"return", "error", "interrupt", "exit"}
VARIABLES owner, alive, hist
Held(a) == {k \in Keys : owner[k] = a}
Init == owner = [k \in Keys |-> 0] /\ alive = {1, 2} /\ hist = <<>>
Ev(what, a, k, how, res) == [what |-> what, a |-> a, k |-> k, how |-> how, ok |-> res]
Try(a, k) ==
  /\ Proc(a) \in alive /\ Cardinality(Held(a)) < 2 /\ owner[k] # a
  /\ owner' = IF owner[k] = 0 THEN [owner EXCEPT ![k] = a] ELSE owner
  /\ hist' = Append(hist, Ev("try", a, k, "", owner[k] = 0)) /\ UNCHANGED alive
(* a thread that already holds the key is refused as well: the lock is not reentrant *)
Again(a, k) ==
  /\ Proc(a) \in alive /\ owner[k] = a
  /\ hist' = Append(hist, Ev("try", a, k, "", FALSE)) /\ UNCHANGED <<owner, alive>>
(* regions nest: the key taken last is left first *)
LastTaken(a, k) == LET idx == {j \in 1..Len(hist) : hist[j].what = "try" /\ hist[j].a = a /\ hist[j].ok /\ owner[hist[j].k] = a
                                   /\ ~\E x \in (j + 1)..Len(hist) : hist[x].what = "leave" /\ hist[x].a = a /\ hist[x].k = hist[j].k}
                   IN idx # {} /\ hist[CHOOSE j \in idx : \A x \in idx : x <= j].k = k
Leave(a, k, how) ==
  /\ Proc(a) \in alive /\ owner[k] = a /\ LastTaken(a, k)
  /\ owner' = [owner EXCEPT ![k] = 0]
  /\ hist' = Append(hist, Ev("leave", a, k, how, TRUE)) /\ UNCHANGED alive
Die(p) ==
  /\ p \in alive /\ Cardinality(alive) = 2 /\ \E k \in Keys : owner[k] # 0 /\ Proc(owner[k]) = p
  /\ alive' = alive \ {p} /\ owner' = [k \in Keys |-> IF owner[k] # 0 /\ Proc(owner[k]) = p THEN 0 ELSE owner[k]]
  /\ hist' = Append(hist, Ev("die", p, 0, "", TRUE))
Next == /\ Len(hist) < Len0
        /\ \/ \E a \in Actors, k \in Keys : Try(a, k) \/ Again(a, k) \/ \E how \in Ways : Leave(a, k, how)
           \/ \E p \in {1, 2} : Die(p)
Spec == Init /\ [][Next]_<<owner, alive, hist>>
Emit == Len(hist) < Len0 \/ PrintT(<<"GEN", ToJson(hist)>>)
===============================================================================
