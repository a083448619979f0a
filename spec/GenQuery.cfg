SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NameSet = {1, 2, 3}
  BoxSet = {1, 2, 3}
  MaxBeads = 7
  MaxQueries = 25
INVARIANT Emit
