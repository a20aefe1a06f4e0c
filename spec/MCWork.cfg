SPECIFICATION Spec
CONSTANTS Parts = {1, 2, 3}
    Speeds <- SomeSpeeds
    MaxPieces = 3
INVARIANTS AlwaysReciprocal AlwaysDissipates
CHECK_DEADLOCK FALSE
