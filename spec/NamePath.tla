------------------------------- MODULE NamePath -------------------------------
(* Relative names as sequences of components, and where they lead (C05).  The root's own
   name is "itn"; "itnx" is a sibling whose name begins like it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen
Components == {"..", ".", "", "english", "data", "itn", "itnx", "new"}
VARIABLES name, abs
Init == name = <<>> /\ abs \in BOOLEAN
Next == Len(name) < MaxLen /\ \E c \in Components : name' = Append(name, c) /\ UNCHANGED abs
Spec == Init /\ [][Next]_<<name, abs>>
(* path machine: the position is a sequence of components below the filesystem root; the
   package root is <<"pkg", "itn">> *)
RECURSIVE Walk(_, _)
Walk(pos, n) == IF n = <<>> THEN pos
                ELSE Walk(CASE Head(n) \in {".", ""} -> pos
                            [] Head(n) = ".." -> (IF pos = <<>> THEN pos ELSE SubSeq(pos, 1, Len(pos) - 1))
                            [] OTHER -> Append(pos, Head(n)), Tail(n))
Root == <<"pkg", "itn">>
Where == Walk(IF abs THEN <<>> ELSE Root, name)
Below(p) == Len(p) >= 2 /\ SubSeq(p, 1, 2) = Root
Inside == Below(Where)
Strict == Inside /\ Len(Where) > 2
Plain == ~abs /\ name # <<>> /\ \A k \in 1..Len(name) : name[k] \notin {"..", ".", ""}
Emit == PrintT(<<"GEN", ToJson([name |-> name, abs |-> abs, inside |-> Inside, strict |-> Strict, plain |-> Plain,
                                 single |-> (Plain /\ Len(name) = 1)])>>)
===============================================================================
