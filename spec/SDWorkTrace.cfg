SPECIFICATION TraceSpec
CONSTANTS Parts = {1}
    Speeds = {0}
    MaxPieces = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
