SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Saves = {1, 2}
  Syncs = {}
  Rebuilds = {4}
  Old = {101}
  EnsureFirst = TRUE
  Recheck = TRUE
  InPlace = TRUE
  Mortal = {1}
INVARIANTS NothingLost NothingMadeUp UpToDate NoDeadlock
VIEW View
