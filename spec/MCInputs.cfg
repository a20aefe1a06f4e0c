SPECIFICATION Spec
CONSTANTS
  Places <- MCPlaces
  Sizes <- MCSizes
  Decays <- MCDecays
INVARIANTS Opposite Apart Central NothingElse Balanced Weaker
CHECK_DEADLOCK FALSE
