------------------------------ MODULE CacheSched ------------------------------
(* Behaviours of the bundle store as schedules for real constructors: every completed
   behaviour without crashes and faults is printed as the sequence of acting processes. *)
EXTENDS CacheStore, Json
VARIABLES hist
SInit == Init /\ hist = <<>>
SNext == \E p \in Procs : Step(p) /\ hist' = Append(hist, p)
Over == \A p \in Procs : pc[p] = "done"
Emit == ~Over \/ PrintT(<<"GEN", ToJson([sched |-> hist, ow |-> ow, init |-> init, built |-> built,
                                          out |-> [p \in Procs |-> out[p].t]])>>)
SSpec == SInit /\ [][SNext]_<<vars, hist>>
===============================================================================
