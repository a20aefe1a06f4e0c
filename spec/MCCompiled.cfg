SPECIFICATION CompiledSpec
CONSTANTS
  Facts <- MCFacts
  Paths <- MCPaths
  Frozen = {}
INVARIANTS AsInterpreted KeptIsOfSomeWorld
CHECK_DEADLOCK FALSE
