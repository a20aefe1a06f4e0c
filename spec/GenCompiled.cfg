SPECIFICATION GenSpec
CONSTANTS
  Facts <- MCFacts
  Paths <- MCPaths
  Frozen = {}
  MaxLength = 3
INVARIANTS Told AsInterpreted
CHECK_DEADLOCK FALSE
