------------------------------ MODULE MCSwitch -----------------------------
EXTENDS SDSwitch, TLC
SomeKinds == UNION {[1..n -> {"sphere", "bead"}] : n \in 1..5}
=============================================================================
