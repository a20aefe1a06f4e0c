SPECIFICATION Spec
CONSTANTS
  Cfgs <- MCCfgs
  MaxCrashes = 1
  AllowDamage = TRUE
  MaxN = 4
  MaxPos = 2
  MaxForce = 2
  MaxStart = 1
  MaxBackup = 3
  MaxInv = 2
  Schemes = {"euler", "ab2"}
  Booms = FALSE
INVARIANTS TypeOK SavedFrames RowsOrderly NoGaps AsIfUninterrupted BackupGone RefreshOnSchedule StopsAfterExplosion
PROPERTIES FinalStays
CHECK_DEADLOCK FALSE
