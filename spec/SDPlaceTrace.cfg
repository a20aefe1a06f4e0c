SPECIFICATION TraceSpec
CONSTANTS
  Kind = "none"
  Length = 0
  Box <- NoBox
  Present <- NoSeq
  Radii <- NoSeq
  Ways <- None
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
