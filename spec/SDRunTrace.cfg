SPECIFICATION TraceSpec
CONSTANTS
  Cfgs = {}
  MaxCrashes = 100
  AllowDamage = TRUE
VIEW View
INVARIANTS SavedFrames RowsOrderly NoGaps AsIfUninterrupted BackupGone RefreshOnSchedule
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
