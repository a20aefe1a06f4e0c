SPECIFICATION TraceSpec
CONSTANTS
  Cfgs <- NoCfgs
  MaxCrashes = 0
  AllowDamage = FALSE
  MaxTrips = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
