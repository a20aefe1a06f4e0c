SPECIFICATION Spec
CONSTANTS
  Words <- MCWords
  Defaults <- MCDefaults
INVARIANTS InOrder Shown
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
