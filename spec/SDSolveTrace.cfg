SPECIFICATION TraceSpec
CONSTANTS Extra = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
