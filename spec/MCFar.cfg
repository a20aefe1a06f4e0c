SPECIFICATION Spec
CONSTANTS Radii = {1, 2}
    Separations = {3, 4, 5, 6}
INVARIANTS Reciprocal Turns DigitsRight
CHECK_DEADLOCK FALSE
