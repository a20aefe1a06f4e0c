SPECIFICATION ReuseSpec
CONSTANTS
  Cfgs <- Longer
  MaxCrashes = 0
  AllowDamage = FALSE
  MaxTrips = 0
INVARIANTS Offered PartsOfOneRun SavedFrames
CHECK_DEADLOCK FALSE
