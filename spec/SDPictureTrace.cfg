SPECIFICATION TraceSpec
CONSTANTS
  Frames = 1
  Kinds = {}
  Forgotten = {}
  Tracing = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
