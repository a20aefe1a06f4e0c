SPECIFICATION Spec
INVARIANT Shown
CHECK_DEADLOCK FALSE
