-------------------------------- MODULE Currency --------------------------------
(* Currency marks and codes and what they are called in Chinese and Japanese (C19); code points. *)
EXTENDS Sequences
Currencies == {
  [sym |-> <<36>>, zh |-> <<32654, 20803>>, ja |-> <<12489, 12523>>],
  [sym |-> <<163>>, zh |-> <<33521, 38225>>, ja |-> <<12509, 12531, 12489>>],
  [sym |-> <<65505>>, zh |-> <<33521, 38225>>, ja |-> <<12509, 12531, 12489>>],
  [sym |-> <<165>>, zh |-> <<20803>>, ja |-> <<20870>>],
  [sym |-> <<65509>>, zh |-> <<20803>>, ja |-> <<20870>>],
  [sym |-> <<3647>>, zh |-> <<27888, 38114>>, ja |-> <<12496, 12540, 12484>>],
  [sym |-> <<8364>>, zh |-> <<27431, 20803>>, ja |-> <<12518, 12540, 12525>>],
  [sym |-> <<8377>>, zh |-> <<21360, 24230, 21346, 27604>>, ja |-> <<12452, 12531, 12489, 12523, 12500, 12540>>],
  [sym |-> <<8381>>, zh |-> <<21346, 24067>>, ja |-> <<12523, 12540, 12502, 12523>>],
  [sym |-> <<67, 72, 70>>, zh |-> <<29790, 22763, 27861, 37070>>, ja |-> <<12473, 12452, 12473, 12501, 12521, 12531>>],
  [sym |-> <<82, 36>>, zh |-> <<24052, 35199, 38647, 20122, 23572>>, ja |-> <<12524, 12450, 12523>>],
  [sym |-> <<85, 83, 68>>, zh |-> <<32654, 20803>>, ja |-> <<12450, 12513, 12522, 12459, 12489, 12523>>],
  [sym |-> <<71, 66, 80>>, zh |-> <<33521, 38225>>, ja |-> <<12509, 12531, 12489>>],
  [sym |-> <<72, 75, 68>>, zh |-> <<28207, 20803>>, ja |-> <<39321, 28207, 12489, 12523>>],
  [sym |-> <<74, 80, 89>>, zh |-> <<26085, 20803>>, ja |-> <<20870>>],
  [sym |-> <<67, 78, 89>>, zh |-> <<20154, 27665, 24065>>, ja |-> <<20154, 27665, 20803>>],
  [sym |-> <<75, 82, 87>>, zh |-> <<38889, 20803>>, ja |-> <<12454, 12457, 12531>>],
  [sym |-> <<65, 85, 68>>, zh |-> <<28595, 20803>>, ja |-> <<35946, 12489, 12523>>],
  [sym |-> <<65, 36>>, zh |-> <<28595, 20803>>, ja |-> <<35946, 12489, 12523>>],
  [sym |-> <<67, 65, 68>>, zh |-> <<21152, 20803>>, ja |-> <<12459, 12490, 12480, 12489, 12523>>],
  [sym |-> <<67, 65, 68, 36>>, zh |-> <<21152, 20803>>, ja |-> <<12459, 12490, 12480, 12489, 12523>>],
  [sym |-> <<83, 71, 68>>, zh |-> <<26032, 21152, 22369, 20803>>, ja |-> <<12471, 12531, 12460, 12509, 12540, 12523, 12489, 12523>>],
  [sym |-> <<84, 72, 66>>, zh |-> <<27888, 38114>>, ja |-> <<12479, 12452, 12496, 12540, 12484>>],
  [sym |-> <<73, 78, 82>>, zh |-> <<21360, 24230, 21346, 27604>>, ja |-> <<12452, 12531, 12489, 12523, 12500, 12540>>],
  [sym |-> <<83, 69, 75>>, zh |-> <<29790, 20856, 20811, 26391>>, ja |-> <<12473, 12454, 12455, 12540, 12487, 12531, 12463, 12525, 12540, 12490>>],
  [sym |-> <<82, 85, 66>>, zh |-> <<20420, 32599, 26031, 21346, 24067>>, ja |-> <<12525, 12471, 12450, 12523, 12540, 12502, 12523>>],
  [sym |-> <<65, 69, 68>>, zh |-> <<38463, 32852, 37195, 36842, 25289, 22982>>, ja |-> <<85, 65, 69, 12487, 12451, 12523, 12495, 12512>>],
  [sym |-> <<65, 82, 83>>, zh |-> <<38463, 26681, 24311, 27604, 32034>>, ja |-> <<12450, 12523, 12476, 12531, 12481, 12531, 12506, 12477>>],
  [sym |-> <<83, 65, 82>>, zh |-> <<27801, 29305, 38463, 25289, 20271, 37324, 20122, 23572>>, ja |-> <<12469, 12454, 12472, 12522, 12516, 12523>>],
  [sym |-> <<84, 82, 89>>, zh |-> <<22303, 32819, 20854, 37324, 25289>>, ja |-> <<12488, 12523, 12467, 12522, 12521>>]}
Name(lang, x) == IF lang = "zh" THEN x.zh ELSE x.ja
===============================================================================
