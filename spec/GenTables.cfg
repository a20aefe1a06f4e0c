SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANT Shown
CHECK_DEADLOCK FALSE
