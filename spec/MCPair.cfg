SPECIFICATION Spec
INVARIANTS Reciprocal Turns Mirrored Exchanged
CHECK_DEADLOCK FALSE
