SPECIFICATION TraceSpec
CONSTANT Kinds = {"none"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
