SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPieces = 4
INVARIANTS RoundTrip OneSuffix Renamed Kept
VIEW View
