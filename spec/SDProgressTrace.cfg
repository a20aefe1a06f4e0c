SPECIFICATION TraceSpec
CONSTANTS
  Lengths = {1}
  Intervals = {1}
  Durations = {1}
  MaxRestarts = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
