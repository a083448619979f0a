SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NameSet = {1, 2, 3, 4}
  Versions = {1, 2, 3}
  MaxOps = 6
INVARIANT Emit
