SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANT Shown
CHECK_DEADLOCK FALSE
