SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  CheckEntries = TRUE
  CheckLinks = TRUE
  MaxLinksPlaced = 1
  MaxCommands = 2
  EntryNames = {"a", "..", "rest"}
  MaxNames = 2
INVARIANTS Contained Sound
