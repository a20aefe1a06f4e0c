SPECIFICATION TraceSpec
CONSTANTS
  Places <- NoSet
  Sizes <- NoSet
  Decays <- NoSet
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
