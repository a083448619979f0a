CONSTANTS
  Names = {1, 2}
  Blocks = {1, 2}
  MaxLen = 1
  Changes = 2
  ReadTwice = FALSE
  CleanUp = TRUE
SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Complete
INVARIANT Faithful
INVARIANT AllOrNothing
INVARIANT Excused
CHECK_DEADLOCK FALSE
