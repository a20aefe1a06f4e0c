SPECIFICATION TraceSpec
CONSTANTS
  Words <- NoWords
  Defaults <- NoDefaults
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
