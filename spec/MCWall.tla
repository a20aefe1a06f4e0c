------------------------------- MODULE MCWall ------------------------------
EXTENDS SDWall
MCCoefficients == {<<[p \in Parts |-> IF p \in q THEN 2 ELSE -1],
                     [p \in Parts |-> IF p \in q THEN -3 ELSE 0]>> : q \in {{}, {"dumbbells"}, {"held", "dumbbells"}, {"free", "strain"}, Parts}}
MCValues == {-2, 0, 1}
=============================================================================
