SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  DataNames = {"data/1"}
  CodeNames = {"code/1"}
  Contents = {1, 2}
  Metas = {1, 2}
  MaxTamper = 2
INVARIANTS VerifiedRight SavedAreValid TamperingFound SameId OrigIds IntactAccepted
