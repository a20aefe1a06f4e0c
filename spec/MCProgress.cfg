SPECIFICATION ProgressSpec
CONSTANTS
  Lengths = {1, 2, 5, 7}
  Intervals = {1, 2, 3, 4}
  Durations = {0, 1, 4}
  MaxRestarts = 1
INVARIANTS RightWhenRegular NothingLeft UpperBound CompilingForgotten MarkedUntilThen
CHECK_DEADLOCK FALSE
