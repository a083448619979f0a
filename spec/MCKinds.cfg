SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Processes = {1, 2}
  Machines = {"a", "b"}
  MaxClock = 1
  MaxThings = 2
  UseRandom = TRUE
INVARIANT AlwaysTied
