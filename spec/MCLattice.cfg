SPECIFICATION Spec
CONSTANTS
  Starts <- MCStarts
  Ops <- MCOps
  MaxOps = 3
INVARIANTS Faithful Repeats Distinct Dense
CHECK_DEADLOCK FALSE
