------------------------------ MODULE GenTables ----------------------------
(* Sessions of scripts to run: lists of so many separations and ratios are  *)
(* put in place, and scripts run on them                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxOps
VARIABLE chain
New == {[op |-> "renew", near |-> n, mid |-> m, rats |-> r] :
           n \in 1..3, m \in 1..3, r \in 1..3}
Runs == {[op |-> o, near |-> 0, mid |-> 0, rats |-> 0] : o \in {"combine", "subtract", "drag"}}
Ops(c) == IF c = <<>> THEN New
          ELSE IF c[Len(c)].op = "renew" THEN {o \in Runs : o.op = "combine"}
          ELSE Runs \cup {o \in New : o.near = 2}
Init == chain = <<>>
Next == Len(chain) < MaxOps /\ \E o \in Ops(chain) : chain' = Append(chain, o)
Spec == Init /\ [][Next]_chain
Shown == (Len(chain) = MaxOps /\ chain[MaxOps].op # "renew") => PrintT("VCH " \o ToJson(chain))
=============================================================================
