------------------------------- MODULE AlignGen -------------------------------
(* Prints complete walks of Alignment for replay on real transducers. *)
EXTENDS MCAlignment, Json
Big == {<<97, 32, 98, 99, 32, 100>>, <<24180, 97, 32, 233, 98>>, <<97, 98, 99, 100, 101>>, <<91, 120, 93, 32, 92, 34>>, <<32, 97, 12288, 98, 32>>, <<128512, 97, 32, 98>>, <<97>>, <<>>}
BigOut == {<<120, 32, 121, 32, 122>>, <<24180, 32, 24180>>, <<120, 121, 122>>, <<91, 92, 93, 34, 32, 120>>, <<32, 120, 160, 121>>, <<128512, 32, 120>>, <<>>, <<120, 44, 32, 121>>}
Emit == ~Over \/ PrintT(<<"GEN", ToJson([i |-> input, o |-> output, f |-> spans[1], g |-> spans[2], a |-> arcs])>>)
===============================================================================
