-------------------------------- MODULE NBest --------------------------------
(* The lazy best-first merge: taggings are activated in tagger order, each contributes its
   best unreturned verbalization to a frontier, and a tagging is activated only when its
   weight says that it might still beat the frontier.  Checked to emit exactly the n best
   outputs for every relation within the bounds. *)
EXTENDS NBestRules
CONSTANTS NTags, NOuts, Weights, None
VARIABLES rel, pending, frontier, emitted, over
vars == <<rel, pending, frontier, emitted, over>>
(* an unordered relation as sequences: alternatives sorted by weight then output *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
                  IN <<m>> \o Sorted(S \ {m})
Alts == {Sorted({<<o, f[o]>> : o \in {o \in 1..NOuts : f[o] # None}}) : f \in [1..NOuts -> Weights \cup {None}]}
Ordered(r) == \A t \in 1..(Len(r) - 1) : r[t][1] <= r[t + 1][1]
Init == /\ rel \in {r \in [1..NTags -> Weights \X Alts] : Ordered(r)}
        /\ pending = 1 /\ frontier = {} /\ emitted = <<>> /\ over = FALSE
(* a frontier item: <<cost, tagging, rank of the alternative>> *)
Item(t, k) == <<rel[t][1] + rel[t][2][k][2] - TagBest(rel[t]), t, k>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Min == CHOOSE x \in frontier : \A y \in frontier : x = y \/ Less(x, y)
More == pending <= NTags
MustActivate == IF ~More THEN FALSE ELSE IF frontier = {} THEN TRUE ELSE Less(<<rel[pending][1], pending, 0>>, Min)
Activate ==
  /\ ~over /\ MustActivate
  /\ pending' = pending + 1
  /\ frontier' = IF rel[pending][2] = <<>> THEN frontier ELSE frontier \cup {Item(pending, 1)}
  /\ UNCHANGED <<rel, emitted, over>>
Pop ==
  /\ ~over /\ ~MustActivate /\ frontier # {}
  /\ LET m == Min  t == m[2]  k == m[3]  o == rel[t][2][k][1] IN
     /\ frontier' = (frontier \ {m}) \cup (IF k < Len(rel[t][2]) THEN {Item(t, k + 1)} ELSE {})
     /\ emitted' = IF \E j \in 1..Len(emitted) : emitted[j] = o THEN emitted ELSE Append(emitted, o)
  /\ UNCHANGED <<rel, pending, over>>
End == ~over /\ ~More /\ frontier = {} /\ over' = TRUE /\ UNCHANGED <<rel, pending, frontier, emitted>>
Next == Activate \/ Pop \/ End
Spec == Init /\ [][Next]_vars
AlwaysBest == Correct(rel, emitted, Len(emitted), 0)
AllInTheEnd == over => Correct(rel, emitted, 99, 0)
===============================================================================
