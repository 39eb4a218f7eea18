------------------------------ MODULE SourceTree ------------------------------
(* Which files of a source tree are production sources, and edit histories of trees.  A path
   is a sequence of components; the suffix of its last component is given beside it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Packages == {"tn", "itn"}
Suffixes == {".py", ".tsv", ".far"}
Production(comps, suffix) ==
  /\ Len(comps) >= 2 /\ comps[1] \in Packages
  /\ suffix \in Suffixes
  /\ \A k \in 2..(Len(comps) - 1) : comps[k] \notin {"test", "__pycache__"}
  /\ comps[Len(comps)] # "_version.py"

(* the pool of paths edited by the histories: <<components, suffix>> *)
Pool == <<
  << <<"tn", "a.py">>, ".py" >>, << <<"tn", "b.py">>, ".py" >>, << <<"tn", "sub", "a.py">>, ".py" >>,
  << <<"tn", "a.tsv">>, ".tsv" >>, << <<"itn", "a.py">>, ".py" >>, << <<"itn", "sub", "deep", "x.far">>, ".far" >>,
  << <<"tn", "sub", "b.tsv">>, ".tsv" >>, << <<"tn", "test.py">>, ".py" >>, << <<"tn", "latest", "a.tsv">>, ".tsv" >>,
  << <<"itn", "contest.tsv">>, ".tsv" >>, << <<"tn", "my_version.py">>, ".py" >>, << <<"tn", "a.b.tsv">>, ".tsv" >>,
  << <<"tn", "test", "a.py">>, ".py" >>, << <<"tn", "sub", "test", "c.tsv">>, ".tsv" >>, << <<"tn", "__pycache__", "a.py">>, ".py" >>,
  << <<"tn", "_version.py">>, ".py" >>, << <<"tn", "README.md">>, ".md" >>, << <<"tn", "a.pyc">>, ".pyc" >>,
  << <<"other", "a.py">>, ".py" >>, << <<"tn", "a.txt">>, ".txt" >>, << <<"tn", "atsv">>, "" >>,
  << <<"itn", "test", "x.far">>, ".far" >>, << <<"a.py">>, ".py" >>, << <<"itn", "sub", "__pycache__", "test", "z.tsv">>, ".tsv" >> >>
Paths == 1..Len(Pool)
IsProd(p) == Production(Pool[p][1], Pool[p][2])

VARIABLES tree, hist, n
Act(what, p, q, c) == [what |-> what, p |-> p, q |-> q, c |-> c]
Init == tree = [p \in Paths |-> 0] /\ hist = <<>> /\ n = 0
Log(a) == hist' = Append(hist, a) /\ n' = n + 1
Set(p, c) == tree[p] # c /\ tree' = [tree EXCEPT ![p] = c] /\ Log(Act("set", p, 0, c))
Del(p) == tree[p] # 0 /\ tree' = [tree EXCEPT ![p] = 0] /\ Log(Act("del", p, 0, 0))
Swap(p, q) == tree[p] # 0 /\ tree[q] # 0 /\ p < q /\ tree' = [tree EXCEPT ![p] = tree[q], ![q] = tree[p]] /\ Log(Act("swap", p, q, 0))
Move(p, q) == tree[p] # 0 /\ tree[q] = 0 /\ tree' = [tree EXCEPT ![p] = 0, ![q] = tree[p]] /\ Log(Act("move", p, q, 0))
Touch(p) == tree[p] # 0 /\ UNCHANGED tree /\ Log(Act("touch", p, 0, 0))
Relocate == UNCHANGED tree /\ n > 0 /\ Log(Act("relocate", 0, 0, 0))
Next == \/ \E p \in Paths : Del(p) \/ Touch(p) \/ (\E c \in 1..4 : Set(p, c)) \/ (\E q \in Paths : Swap(p, q) \/ Move(p, q))
        \/ Relocate
Spec == Init /\ [][Next]_<<tree, hist, n>>
Depth == 14
Stop == n < Depth
Emit == n < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
===============================================================================
