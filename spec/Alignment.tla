------------------------------- MODULE Alignment -------------------------------
(* The walk of a path, one arc at a time, with a cursor that knows only how much was consumed
   and produced so far (C11).  Checked for every path within the bounds to compute exactly what
   AlignRules defines, and to have the properties users rely on. *)
EXTENDS AlignRules
CONSTANTS Inputs, Outputs, MaxIdle
VARIABLES input, output, spans, arcs, fwd, bwd, idle
vars == <<input, output, spans, arcs, fwd, bwd, idle>>

Lists(n, least) == {s \in UNION {[1..m -> (0..n) \X (0..n)] : m \in 0..2} : Ordered(s, n) /\ (\A k \in 1..Len(s) : s[k][2] - s[k][1] >= least)}
Fresh == [i |-> 0, o |-> 0, first |-> <<>>, last |-> <<>>, gate |-> <<>>]
Blank(n) == [k \in 1..n |-> -1]
Start(n) == [i |-> 0, o |-> 0, first |-> Blank(n), last |-> Blank(n), gate |-> Blank(n)]

Init == /\ input \in Inputs /\ output \in Outputs
        /\ \E f \in Lists(Len(input), 1), g \in Lists(Len(output), 0) :
              (f = <<>> \/ g = <<>>) /\ spans = <<f, g>> /\ fwd = Start(Len(f)) /\ bwd = Start(Len(g))
        /\ arcs = <<>> /\ idle = 0
InB == Utf8(input)
OutB == Utf8(output)
FB == ToBytes(spans[1], Edge(input))
GB == ToBytes(spans[2], Edge(output))

Mark(s, k, at) == [s EXCEPT !.first[k] = IF @ = -1 THEN at ELSE @, !.last[k] = at]
(* the cursor of the forward walk *)
StepF(s, arc) ==
  LET cur == LET S == {k \in 1..Len(FB) : FB[k][2] > s.i} IN IF S = {} THEN Len(FB) + 1 ELSE CHOOSE k \in S : \A m \in S : k <= m
      here == cur <= Len(FB)
      owner == IF arc[2] = 0 THEN 0
               ELSE IF arc[1] # 0 THEN (IF here /\ (IF here THEN FB[cur][1] <= s.i ELSE FALSE) THEN cur ELSE 0)
               ELSE IF here /\ (IF here THEN FB[cur][1] < s.i \/ (cur = 1 /\ FB[cur][1] = s.i) ELSE FALSE) THEN cur
               ELSE IF SpaceBytes(output)[s.o + 1] THEN 0
               ELSE cur - 1
      g == IF here /\ arc[1] # 0 /\ (IF here THEN FB[cur][1] = s.i ELSE FALSE) THEN [s EXCEPT !.gate[cur] = s.o] ELSE s
      m == IF owner = 0 THEN g ELSE Mark(g, owner, s.o)
  IN [m EXCEPT !.i = @ + (IF arc[1] # 0 THEN 1 ELSE 0), !.o = @ + (IF arc[2] # 0 THEN 1 ELSE 0)]
StepB(s, arc) ==
  LET cur == LET S == {k \in 1..Len(GB) : GB[k][2] > s.o} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m
      blank == IF arc[1] # 0 THEN SpaceBytes(input)[s.i + 1] ELSE FALSE
      owner == IF arc[1] = 0 \/ cur = 0 THEN 0
               ELSE IF GB[cur][1] <= s.o /\ (s.o # GB[cur][1] \/ arc[2] # 0)
                    THEN (IF arc[2] = 0 /\ blank /\ s.first[cur] = -1 THEN 0 ELSE cur)
               ELSE IF arc[2] # 0 /\ s.o + 1 = GB[cur][1] /\ ~blank THEN cur ELSE 0
      m == IF owner = 0 THEN s ELSE Mark(s, owner, s.i)
  IN [m EXCEPT !.i = @ + (IF arc[1] # 0 THEN 1 ELSE 0), !.o = @ + (IF arc[2] # 0 THEN 1 ELSE 0)]

Step(arc) == arcs' = Append(arcs, arc) /\ fwd' = StepF(fwd, arc) /\ bwd' = StepB(bwd, arc)
CanIn == fwd.i < Len(InB)
CanOut == fwd.o < Len(OutB)
Both == CanIn /\ CanOut /\ Step(<<InB[fwd.i + 1], OutB[fwd.o + 1]>>) /\ UNCHANGED <<input, output, spans, idle>>
Take == CanIn /\ Step(<<InB[fwd.i + 1], 0>>) /\ UNCHANGED <<input, output, spans, idle>>
Give == CanOut /\ Step(<<0, OutB[fwd.o + 1]>>) /\ UNCHANGED <<input, output, spans, idle>>
Rest == idle < MaxIdle /\ (CanIn \/ CanOut) /\ Step(<<0, 0>>) /\ idle' = idle + 1 /\ UNCHANGED <<input, output, spans>>
Next == Both \/ Take \/ Give \/ Rest
Spec == Init /\ [][Next]_vars
Over == fwd.i = Len(InB) /\ fwd.o = Len(OutB)

(* what the cursor knows at the end is what the rules say *)
WalkF == LET RECURSIVE place(_, _)
             place(k, last) == IF k > Len(FB) THEN <<>>
                               ELSE LET h == IF fwd.first[k] # -1 THEN <<fwd.first[k], fwd.last[k] + 1>>
                                             ELSE <<Max2(fwd.gate[k], last), Max2(fwd.gate[k], last)>>
                                    IN <<h>> \o place(k + 1, h[2])
         IN place(1, 0)
WalkB == [k \in 1..Len(GB) |-> IF bwd.first[k] = -1 THEN <<>> ELSE <<bwd.first[k], bwd.last[k] + 1>>]
CursorIsRule == Over => WalkF = Placed(arcs, FB, SpaceBytes(output)) /\ WalkB = Taken(arcs, GB, SpaceBytes(input))

P == Placed(arcs, FB, SpaceBytes(output))
I == Before(arcs, 1)
O == Before(arcs, 2)
Emits == {j \in 1..Len(arcs) : arcs[j][2] # 0}
(* spans are ordered, disjoint, and within the text *)
Disjoint == Over => \A k \in 1..Len(FB) : P[k][1] >= (IF k = 1 THEN 0 ELSE P[k - 1][2]) /\ P[k][2] >= P[k][1] /\ P[k][2] <= Len(OutB)
(* what a token's own bytes turn into lies in its span, and in no other *)
OwnOutput == Over => \A j \in Emits, k \in 1..Len(FB) :
  (arcs[j][1] # 0 /\ FB[k][1] <= I[j] /\ I[j] < FB[k][2]) => (P[k][1] <= O[j] /\ O[j] < P[k][2])
(* nothing said after the first token has begun is lost, except whitespace and what separators turn into *)
Covered == Over => \A j \in Emits :
  (FB # <<>> /\ I[j] >= (IF FB # <<>> THEN FB[1][1] ELSE 0) /\ arcs[j][1] = 0 /\ ~SpaceBytes(output)[O[j] + 1])
     => \E k \in 1..Len(FB) : P[k][1] <= O[j] /\ O[j] < P[k][2]
(* no span begins or ends with whitespace that is produced between two tokens *)
Between(j) == arcs[j][1] = 0 /\ SpaceBytes(output)[O[j] + 1] /\ (\E k \in 1..Len(FB) : FB[k][2] <= I[j]) /\ ~\E k \in 1..Len(FB) : FB[k][1] < I[j] /\ I[j] < FB[k][2]
Separators == Over => \A j \in Emits : (IF Between(j) THEN \A k \in 1..Len(FB) : P[k][1] = P[k][2] \/ (O[j] # P[k][1] /\ O[j] # P[k][2] - 1) ELSE TRUE)
Q == Taken(arcs, GB, SpaceBytes(input))
InOrder == Over => \A k, m \in 1..Len(GB) : (k < m /\ Q[k] # <<>> /\ Q[m] # <<>>) => Q[k][2] <= Q[m][1]
===============================================================================
