SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  DataNames = {"data/1", "data/s/2"}
  CodeNames = {"code/1", "code/s/2"}
  Contents = {1, 2}
  Metas = {1, 2}
  MaxTamper = 3
INVARIANT Emit
