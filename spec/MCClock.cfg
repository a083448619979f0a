SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTime = 6
  MaxSaves = 3
  OffsetSet = {0, 2}
  MaxZones = 1
INVARIANTS Truthful LaterIsNewer NotInFuture RightOne
