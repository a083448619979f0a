SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPieces = 6
  Length = 14
INVARIANT Emit
