SPECIFICATION Spec
CONSTANTS
  Case = "dumbbells"
  Kind = "dumbbells"
  Length = 2
  Box <- MCBox
  Present <- MCPresent
  Radii <- MCRadii
  Ways <- MCWays
INVARIANTS Never Inside Spaced StaysFlat AsAsked
CHECK_DEADLOCK FALSE
