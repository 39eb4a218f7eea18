------------------------------ MODULE NBestRules ------------------------------
(* What the n best outputs of a weighted tagger/verbalizer pair are.  A relation is a
   sequence of taggings <<weight, alternatives>>, where alternatives is a sequence of
   <<output, weight>>; a tagging may have no alternative (its verbalization fails). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
TagBest(tag) == Least({tag[2][k][2] : k \in 1..Len(tag[2])})
Live(rel) == {t \in 1..Len(rel) : rel[t][2] # <<>>}
OutputsOf(tag) == {tag[2][k][1] : k \in 1..Len(tag[2])}
Outputs(rel) == UNION {OutputsOf(rel[t]) : t \in Live(rel)}
(* relative cost of an output under a tagging, and its joint cost *)
Under(tag, o) == tag[1] + Least({tag[2][k][2] : k \in {k \in 1..Len(tag[2]) : tag[2][k][1] = o}}) - TagBest(tag)
Cost(rel, o) == Least({Under(rel[t], o) : t \in {t \in Live(rel) : o \in OutputsOf(rel[t])}})
(* slack: costs closer than this count as equal (0 for exactly representable weights) *)
Correct(rel, list, n, slack) ==
  LET all == Outputs(rel)
      cost == TLCEval([o \in all |-> Cost(rel, o)]) IN
  /\ \A k \in 1..Len(list) : list[k] \in all
  /\ \A j, k \in 1..Len(list) : j # k => list[j] # list[k]
  /\ \A k \in 1..(Len(list) - 1) : cost[list[k]] <= cost[list[k + 1]] + slack
  /\ Len(list) <= n
  /\ (Len(list) < n => {list[k] : k \in 1..Len(list)} = all)
  /\ (list # <<>> => \A o \in all : cost[o] + slack < cost[list[Len(list)]] => \E k \in 1..Len(list) : list[k] = o)
===============================================================================
