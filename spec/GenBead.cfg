SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Wss = {"w1", "w2"}
  Nicks_ = {"n1", "n2"}
  MaxSaves = 8
  MaxSteps = 0
  MaxKind = 4
  Depth = 110
  Reluctance = 6
  Ops = {"new", "edit", "discard", "save", "add", "update", "load", "unload", "delete", "boxadd", "forget", "index", "reindex", "produce", "remove", "copy"}
  InitReg <- RegA
INVARIANTS Registry InputIntegrity IndexTransparent WriteProtected Emit
