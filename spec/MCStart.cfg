SPECIFICATION Spec
CONSTANTS
  Confs <- MCConfs
  Paths <- MCPaths
INVARIANTS NoOutput OneOutput CarriesOn Determined Needed
PROPERTY Ends
CHECK_DEADLOCK FALSE
