SPECIFICATION ReuseSpec
CONSTANTS
  Cfgs <- MCCfgs
  MaxCrashes = 0
  AllowDamage = FALSE
  MaxTrips = 1
INVARIANTS PartsOfOneRun SavedFrames RowsOrderly
CHECK_DEADLOCK FALSE
