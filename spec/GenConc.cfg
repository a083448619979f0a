SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Saves = {1, 2}
  Syncs = {3}
  Rebuilds = {4}
  Old = {101, 102}
  EnsureFirst = TRUE
  Recheck = TRUE
  InPlace = TRUE
  Mortal = {1}
INVARIANT Emit
