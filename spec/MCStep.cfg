SPECIFICATION Spec
CONSTANTS Frames = 3
INVARIANTS Accurate Grown SameUpToImages Rigid RightHanded Plane Refresh
CHECK_DEADLOCK FALSE
