-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of Unicode code points (naturals).  Helpers shared by all
   specifications: ASCII codes of literal strings, slices, character classes. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

AsciiStr == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiSeq == <<32,33,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,
  65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,93,94,95,96,
  97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126>>

CodeTable == [c \in { SubSeq(AsciiStr, i, i) : i \in 1..Len(AsciiStr) } |->
                AsciiSeq[CHOOSE i \in 1..Len(AsciiStr) : SubSeq(AsciiStr, i, i) = c]]

(* the code points of a TLA+ string literal (no quote or backslash inside) *)
T(s) == TLCEval([i \in 1..Len(s) |-> CodeTable[SubSeq(s, i, i)]])

Quote == 34
Backslash == 92
Space == 32
LBrace == 123
RBrace == 125
Colon == 58

IsAsciiLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDigit(c) == c >= 48 /\ c <= 57

(* characters Python's str.isspace() accepts *)
PySpace == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760} \cup (8192..8202)
           \cup {8232, 8233, 8239, 8287, 12288}

Slice(t, a, b) == SubSeq(t, a + 1, b)      (* Python's t[a:b], 0 <= a <= b <= Len(t) *)

Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

Join(sep, ss) == IF ss = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA acc, s : acc \o sep \o s, ss[1], Tail(ss))

RECURSIVE ReplaceEach(_, _, _)
(* replaces every code point c of t by F(c), a sequence *)
ReplaceEach(t, F(_), i) == IF i > Len(t) THEN <<>> ELSE F(t[i]) \o ReplaceEach(t, F, i + 1)
MapCat(F(_), t) == FoldLeft(LAMBDA acc, c : acc \o F(c), <<>>, t)
=============================================================================
