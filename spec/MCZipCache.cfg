SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Good = {1, 2, 3, 4}
  Bad = {11}
  Capacity = 3
  MaxSteps = 40
CONSTRAINT Bound
INVARIANTS Bounded Order Right OnlyUsed
VIEW View
