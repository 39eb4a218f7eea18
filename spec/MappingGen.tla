------------------------------ MODULE MappingGen ------------------------------
(* Prints complete runs of the Mapping model for replay on real transducer pipelines. *)
EXTENDS Mapping, Json
GenPieces == {<<97>>, <<65345>>, <<233>>, <<98, 97>>, <<97, 32, 98>>, <<34>>, <<92, 97>>, <<91, 49, 93>>, <<24180>>, <<128512, 97>>}
GenSpoken == {<<>>, <<97>>, <<65>>, <<98, 65>>, <<201>>, <<101, 769>>, <<120, 121>>, <<120, 32, 121>>, <<32>>, <<24180, 34>>, <<12288>>, <<92>>, <<91>>}
Emit == phase # "done" \/ in = <<>> \/ PrintT(<<"GEN", ToJson([i |-> in, o |-> out, m |-> ms])>>)
===============================================================================
