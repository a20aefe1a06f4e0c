SPECIFICATION Spec
CONSTANTS
  Coefficients <- MCCoefficients
  Values <- MCValues
INVARIANTS Exact WhenAlone
PROPERTY Changes
CHECK_DEADLOCK FALSE
