SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  CheckEntries = TRUE
  CheckLinks = TRUE
  MaxLinksPlaced = 4
  MaxCommands = 6
  EntryNames = {"a", "..", "rest"}
  MaxNames = 2
INVARIANT Emit
