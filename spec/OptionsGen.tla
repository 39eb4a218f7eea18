------------------------------ MODULE OptionsGen ------------------------------
(* Every assignment of the construction options of every pipeline that has some. *)
EXTENDS TLC, Json
VARIABLE c
Pipe(name, opts) == [pipe : {name}, o : [opts -> BOOLEAN]]
All == Pipe("zt", {"remove_erhua", "traditional_to_simple", "remove_interjections", "remove_puncts", "full_to_half", "tag_oov"})
       \cup Pipe("jt", {"transliterate", "remove_interjections", "remove_puncts", "full_to_half", "tag_oov"})
       \cup Pipe("zi", {"remove_interjections", "enable_standalone_number", "enable_0_to_9", "enable_million"})
       \cup Pipe("ji", {"full_to_half", "enable_standalone_number", "enable_0_to_9", "enable_million"})
Init == c \in All /\ PrintT(<<"GEN", ToJson(c)>>)
Next == FALSE /\ UNCHANGED c
===============================================================================
