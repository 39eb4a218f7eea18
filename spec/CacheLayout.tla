------------------------------ MODULE CacheLayout ------------------------------
(* What a constructor may find under its cache root.  Nodes of one key's part of the tree,
   and the kinds of object each can be; all layouts with at most Odd unusual objects are
   enumerated.  A node exists only if its parent is a directory. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Odd
Nodes == {"prefix", "config", "final", "lock", "tmp", "previous", "corrupt",
          "final/tagger", "final/verbalizer", "final/manifest", "final/extra",
          "previous/tagger", "previous/manifest", "previous/extra", "tmp/extra", "corrupt/extra", "tmp/tagger"}
Parent(n) == CASE n = "prefix" -> "" [] n = "config" -> "prefix"
               [] n \in {"final", "lock", "tmp", "previous", "corrupt"} -> "config"
               [] n \in {"final/tagger", "final/verbalizer", "final/manifest", "final/extra"} -> "final"
               [] n \in {"previous/tagger", "previous/manifest", "previous/extra"} -> "previous"
               [] n \in {"tmp/extra", "tmp/tagger"} -> "tmp" [] n = "corrupt/extra" -> "corrupt"
Files == {"lock", "final/tagger", "final/verbalizer", "final/manifest", "previous/tagger", "previous/manifest", "tmp/tagger"}
Extras == {"final/extra", "previous/extra", "tmp/extra", "corrupt/extra"}
(* usual: what the cache itself leaves there; residuals and extras are usually absent *)
Usual(n) == IF n \in Extras THEN {"absent"} ELSE IF n \in Files THEN {"file"} ELSE {"dir"}
(* unusual kinds; "linkdir" a link to a directory outside that is a complete bundle of this
   key, "linkfile" to a file outside, "dangling" to nothing outside, "loop" to itself,
   "inside" to another key's object under the same root *)
Unusual == {"absent", "emptydir", "tree", "file", "emptyfile", "linkdir", "linkfile", "dangling", "loop", "inside"}
Kinds(n) == (Unusual \ Usual(n)) \ (IF n \in {"prefix", "config"} THEN {"emptydir", "tree"} ELSE {})
VARIABLES kind, odd
IsDir(n, k) == k[n] = "dir"
Exists(n, k) == IF Parent(n) = "" THEN TRUE ELSE IsDir(Parent(n), k)
(* residual directories are a matter of choice: present in the base layouts or not *)
Base == {[n \in Nodes |-> CASE n \in Extras -> "absent"
                            [] n \in {"tmp", "previous", "corrupt"} -> (IF res THEN "dir" ELSE "absent")
                            [] n \in {"previous/tagger", "previous/manifest", "tmp/tagger"} -> (IF res THEN "file" ELSE "absent")
                            [] n = "final" -> (IF fin THEN "dir" ELSE "absent")
                            [] n \in {"final/tagger", "final/verbalizer", "final/manifest"} -> (IF fin THEN "file" ELSE "absent")
                            [] n = "lock" -> "file" [] OTHER -> "dir"] : res \in BOOLEAN, fin \in BOOLEAN}
Init == kind \in Base /\ odd = {}
RECURSIVE Under(_, _)
Under(m, n) == IF Parent(m) = "" THEN FALSE ELSE IF Parent(m) = n THEN TRUE ELSE Under(Parent(m), n)
Below(n) == {m \in Nodes : Under(m, n)}
Place(n, k) ==
  /\ Cardinality(odd) < Odd /\ n \notin odd /\ Exists(n, kind) /\ kind[n] # k
  /\ \A m \in odd : m \notin Below(n)
  /\ kind' = [m \in Nodes |-> IF m = n THEN k ELSE IF m \in Below(n) THEN "absent" ELSE kind[m]]
  /\ odd' = odd \cup {n}
Next == \E n \in Nodes : \E k \in Kinds(n) : Place(n, k)
Spec == Init /\ [][Next]_<<kind, odd>>
(* the key's own complete bundle under its final name, resp. recoverable from a residual:
   every object on the way is what the cache itself would have left *)
FinalIntact == IsDir("config", kind) /\ IsDir("prefix", kind) /\ IsDir("final", kind) /\ kind["final/extra"] = "absent"
               /\ \A f \in {"final/tagger", "final/verbalizer", "final/manifest"} : kind[f] = "file"
PreviousIntact == IsDir("config", kind) /\ IsDir("prefix", kind) /\ IsDir("previous", kind) /\ kind["previous/extra"] = "absent"
               /\ \A f \in {"previous/tagger", "previous/manifest"} : kind[f] = "file"
Emit == PrintT(<<"GEN", ToJson([kind |-> kind, intact |-> (FinalIntact \/ (PreviousIntact /\ kind["final"] = "absent")),
                                 odd |-> odd])>>)
===============================================================================
