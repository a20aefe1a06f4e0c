SPECIFICATION TraceSpec
CONSTANTS
  Confs = {}
  Paths = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
