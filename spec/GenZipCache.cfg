SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Good = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
  Bad = {15}
  Capacity = 10
  Length = 60
INVARIANT Emit
