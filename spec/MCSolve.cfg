SPECIFICATION Spec
CONSTANTS
  Problems <- MCProblems
  Ops <- MCOps
  MaxOps = 3
  Extra = 2
INVARIANTS Composes Adds
PROPERTY Lawful
CHECK_DEADLOCK FALSE
