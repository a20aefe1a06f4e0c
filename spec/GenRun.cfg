SPECIFICATION Spec
CONSTANTS
  Cfgs <- GenCfgs
  MaxCrashes = 2
  AllowDamage = TRUE
INVARIANTS Printed SavedFrames RowsOrderly NoGaps AsIfUninterrupted BackupGone RefreshOnSchedule StopsAfterExplosion
CHECK_DEADLOCK FALSE
