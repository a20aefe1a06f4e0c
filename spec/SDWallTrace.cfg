SPECIFICATION TraceSpec
CONSTANTS
  Coefficients <- NoSet
  Values <- NoSet
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
