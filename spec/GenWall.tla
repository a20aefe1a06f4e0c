------------------------------ MODULE GenWall ------------------------------
(* Sessions: sequences of changes to make with the real solver              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxOps
VARIABLE chain
Ops == {[op |-> "other", part |-> p] : p \in {"held", "free", "torque", "strain"}}
    \cup {[op |-> "scale", by |-> n] : n \in {2, -3}}
    \cup {[op |-> "ask", by |-> 0], [op |-> "alone", by |-> 0], [op |-> "quiet", by |-> 0]}
Ended(c) == c # <<>> /\ c[Len(c)].op = "quiet"
Init == chain = <<>>
Next == /\ Len(chain) < MaxOps /\ ~Ended(chain)
        /\ \E o \in Ops : chain' = Append(chain, o)
Spec == Init /\ [][Next]_chain
Shown == Ended(chain) => PrintT("VCH " \o ToJson(chain))
=============================================================================
