INIT Init
NEXT Next
CONSTANTS
  Confs <- MCConfs
  Paths <- OnePath
INVARIANT Shown
CHECK_DEADLOCK FALSE
