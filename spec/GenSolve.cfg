SPECIFICATION GenSpec
CONSTANTS
  Problems = {}
  Ops = {}
  Extra = 0
  MaxOps = 2
  Class = "frame"
  Shapes = {}
INVARIANT Shown
CHECK_DEADLOCK FALSE
