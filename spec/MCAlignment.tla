------------------------------ MODULE MCAlignment ------------------------------
EXTENDS Alignment
In2 == {<<>>, <<97>>, <<97, 32>>, <<32, 97>>, <<97, 98, 97>>, <<97, 32, 98>>, <<32, 233>>}
Out2 == {<<>>, <<120>>, <<32, 120>>, <<120, 32, 121>>, <<120, 32>>, <<160, 120>>, <<120, 121>>, <<233>>}
Out1 == {<<>>, <<32, 120>>, <<120>>}
In3 == {<<97, 32, 98, 97>>, <<97, 98, 32, 32, 99>>, <<24180, 97>>}
Out3 == {<<120, 32, 121, 122>>, <<120, 121, 32>>, <<12288, 120>>, <<32, 120, 121, 32>>}
===============================================================================
