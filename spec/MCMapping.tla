------------------------------- MODULE MCMapping -------------------------------
EXTENDS Mapping
MCPieces == {<<97>>, <<98, 97>>, <<97, 32, 98>>}
MCSpoken == {<<>>, <<97>>, <<120, 121>>, <<120, 32, 121>>}
===============================================================================
