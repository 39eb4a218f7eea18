----------------------------- MODULE CacheIdentity -----------------------------
(* One cache root shared by constructors of different identities.  An identity is what a
   bundle is for: builder, sources, prefix, order type, configuration.  store[i] is the
   bundle found under identity i's name: 0 none, g intact of generation g, -1 something
   else (damaged, or the bundle of another identity).  Behaviours are printed for replay
   together with the outcome of every construction. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Damages, Depth
VARIABLES store, gen, hist
Init == store = [i \in Ids |-> 0] /\ gen = 0 /\ hist = <<>>
Intact(i) == store[i] >= 1
Ev(what, i, j, ow, built, g) == [what |-> what, i |-> i, j |-> j, ow |-> ow, built |-> built, g |-> g]
(* a constructor uses the bundle exactly if it is intact and no overwrite was asked for *)
Construct(i, ow) ==
  LET hit == ~ow /\ Intact(i) IN
  /\ gen' = gen + 1
  /\ store' = IF hit THEN store ELSE [store EXCEPT ![i] = gen + 1]
  /\ hist' = Append(hist, Ev("construct", i, 0, ow, ~hit, IF hit THEN store[i] ELSE gen + 1))
(* the sources change from i's to j's while a constructor of i builds: it fails, nothing changes *)
Changed(i, j, ow) ==
  /\ i # j /\ (ow \/ ~Intact(i)) /\ gen' = gen + 1
  /\ store' = IF ow THEN store ELSE [store EXCEPT ![i] = 0]
  /\ hist' = Append(hist, Ev("changed", i, j, ow, TRUE, 0))
Damage(i, d) ==
  /\ Intact(i) /\ store' = [store EXCEPT ![i] = -1] /\ hist' = Append(hist, Ev("damage", i, d, FALSE, FALSE, 0)) /\ UNCHANGED gen
(* somebody copies the bundle of i over the name of j *)
Copy(i, j) ==
  /\ i # j /\ Intact(i) /\ store' = [store EXCEPT ![j] = -1] /\ hist' = Append(hist, Ev("copy", i, j, FALSE, FALSE, 0)) /\ UNCHANGED gen
Touch(i) ==
  /\ Intact(i) /\ hist' = Append(hist, Ev("touch", i, 0, FALSE, FALSE, 0)) /\ UNCHANGED <<store, gen>>
Next == \/ \E i \in Ids : (\E ow \in BOOLEAN : Construct(i, ow)) \/ Touch(i) \/ (\E d \in Damages : Damage(i, d))
        \/ \E i, j \in Ids : Copy(i, j) \/ (\E ow \in BOOLEAN : Changed(i, j, ow))
Spec == Init /\ [][Next]_<<store, gen, hist>>
Stop == Len(hist) < Depth
Emit == Len(hist) < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
(* design invariants: a generation lives under at most one name; a hit never returns what
   another identity built *)
OneName == \A i, j \in Ids : (Intact(i) /\ store[i] = store[j]) => i = j
OwnOnly == \A k \in 1..Len(hist) : (hist[k].what = "construct" /\ ~hist[k].built) =>
             \E b \in 1..(k - 1) : hist[b].what = "construct" /\ hist[b].built /\ hist[b].g = hist[k].g /\ hist[b].i = hist[k].i
===============================================================================
