SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  FirstYear = 1995
  LastYear = 2105
INVARIANTS Counted Shifted Follows
