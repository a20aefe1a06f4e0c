SPECIFICATION Spec
CONSTANTS
  Cfgs <- MCCfgs
  MaxCrashes = 1
  AllowDamage = TRUE
  MaxN = 4
  MaxPos = 3
  MaxForce = 2
  MaxStart = 2
  MaxBackup = 2
  MaxInv = 2
  Schemes = {"euler", "ab2", "rk4"}
  Booms = TRUE
INVARIANTS TypeOK SavedFrames RowsOrderly NoGaps AsIfUninterrupted BackupGone RefreshOnSchedule StopsAfterExplosion
PROPERTIES FinalStays
CHECK_DEADLOCK FALSE
