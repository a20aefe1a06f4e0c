----------------------------- MODULE GenInputs -----------------------------
(* Oscillatory shears to ask for                                            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Init == \E num \in {1, -2}, den \in {1, 3}, period \in {1, 7}, phase \in {0, 5, 12, 21},
           f2 \in {0, 1, 2, 9, 30}, d \in {2, 6, 10, 22}, un \in {1, 2},
           tr \in BOOLEAN, op \in BOOLEAN :
        /\ (op => un = 2)
        /\ c = [s |-> [num |-> num, den |-> den, period |-> period, phase |-> phase,
                       f2 |-> f2, d |-> d], unused |-> un, transposed |-> tr, opposite |-> op]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Shown == PrintT("VCH " \o ToJson(c))
=============================================================================
