SPECIFICATION PictureSpec
CONSTANTS
  Frames = 5
  Kinds = {"disc", "marker", "rod", "arrow", "outline"}
  Forgotten = {}
  Tracing = TRUE
INVARIANTS OnlyThisFrame EachOnce AllPaths
CHECK_DEADLOCK FALSE
