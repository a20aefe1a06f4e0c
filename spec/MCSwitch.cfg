SPECIFICATION Spec
CONSTANT Kinds <- SomeKinds
INVARIANTS OnlyNear OnlyDrag OnlyBeads Reciprocal Quiet Everywhere
CHECK_DEADLOCK FALSE
