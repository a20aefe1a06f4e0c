SPECIFICATION TraceSpec
CONSTANTS
  Starts = {}
  Ops = {}
  MaxOps = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
