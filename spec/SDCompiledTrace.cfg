SPECIFICATION TraceSpec
CONSTANTS
  Facts <- AllFacts
  Paths <- AllPaths
  Frozen = {}
INVARIANTS AsInterpreted
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
