------------------------------ MODULE CacheRules ------------------------------
(* Vocabulary shared by the design of the bundle store (CacheStore) and by the judges
   of recorded runs (CacheTrace).  A bundle is one integer: 0 absent, g >= 1 the complete
   bundle of generation g (tagger and verbalizer of one build), -1 anything else that
   lies under the name (partial, mixed, corrupted). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Absent == 0
Junk == -1
Complete(b) == b >= 1

(* what a finished constructor reports: exception name, generations of its two graphs, whether it built *)
Usable(o) == o.exc = "" /\ o.t = o.v /\ o.t >= 1
Sound(o) == o.exc # "" \/ Usable(o)

(* a key directory: the bundle under the final name and the residual bundles of the key *)
Recoverable(final, previous) == Complete(final) \/ (final = Absent /\ \E b \in previous : Complete(b))

(* final-name history of one constructor: never half-written, and a constructor that was
   not asked to overwrite never displaces a complete bundle *)
NeverHalfWritten(finals) == finals = <<>> \/ finals[1] = Junk \/ \A k \in 1..Len(finals) : finals[k] # Junk
KeepsWithoutOverwrite(finals, ow) == ow \/ \A k \in 1..(Len(finals) - 1) : Complete(finals[k]) => finals[k + 1] = finals[k]
===============================================================================
