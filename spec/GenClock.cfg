SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTime = 16
  MaxSaves = 8
  OffsetSet <- GOffsets
  MaxZones = 3
INVARIANT Emit
