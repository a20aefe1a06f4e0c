SPECIFICATION Spec
CONSTANTS
  Starts <- GenStarts
  Ops <- MCOps
  MaxOps = 2
INVARIANT Shown
CHECK_DEADLOCK FALSE
