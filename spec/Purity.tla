-------------------------------- MODULE Purity --------------------------------
(* A processor serving calls of several threads.  A call reads its text, parses the tagged
   text and verbalizes it in separate steps, and may fail in between; callers may scribble on
   what they were given.  The result of every call must be the reference of its own operation
   and text, whatever happened before or happens at the same time (C13).
   Private = FALSE is the flawed design in which calls share one parser. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Ops, Texts, MaxCalls, Private
VARIABLES pc, call, own, shared, done, count, hist
vars == <<pc, call, own, shared, done, count, hist>>
Fails(op) == op \in {"badn", "badtoken", "badtype"}
(* the reference of a call: a function of operation and text alone *)
Ref(op, t) == IF Fails(op) THEN <<"error", op>> ELSE <<op, t>>
Nothing == 0
Init ==
  /\ pc = [h \in Threads |-> "idle"] /\ call = [h \in Threads |-> <<"", Nothing>>]
  /\ own = [h \in Threads |-> Nothing] /\ shared = Nothing
  /\ done = {} /\ count = 0 /\ hist = <<>>
Note(e) == hist' = Append(hist, e)
Start(h) ==
  /\ pc[h] = "idle" /\ count < MaxCalls /\ count' = count + 1
  /\ \E op \in Ops, t \in Texts :
       /\ call' = [call EXCEPT ![h] = <<op, t>>]
       /\ Note([e |-> "start", h |-> h, op |-> op, t |-> t])
  /\ pc' = [pc EXCEPT ![h] = "tagging"] /\ UNCHANGED <<own, shared, done>>
Parse(h) ==
  /\ pc[h] = "tagging" /\ pc' = [pc EXCEPT ![h] = "parsed"]
  /\ own' = [own EXCEPT ![h] = call[h][2]] /\ shared' = call[h][2]
  /\ UNCHANGED <<call, done, count, hist>>
Finish(h) ==
  /\ pc[h] = "parsed" /\ pc' = [pc EXCEPT ![h] = "idle"]
  /\ LET op == call[h][1]
         got == IF Fails(op) THEN <<"error", op>> ELSE <<op, IF Private THEN own[h] ELSE shared>>
     IN done' = done \cup {<<op, call[h][2], got>>}
  /\ Note([e |-> "finish", h |-> h, op |-> "", t |-> 0])
  /\ UNCHANGED <<call, own, shared, count>>
(* the caller changes the list or object it got back: own copies only *)
Next == \E h \in Threads : Start(h) \/ Parse(h) \/ Finish(h)
Spec == Init /\ [][Next]_vars
View == <<pc, call, own, shared, done, count>>
Pure == \A d \in done : d[3] = Ref(d[1], d[2])
(* generation *)
Over == count = MaxCalls /\ \A h \in Threads : pc[h] = "idle"
Emit == ~Over \/ PrintT(<<"GEN", ToJson(hist)>>)
===============================================================================
