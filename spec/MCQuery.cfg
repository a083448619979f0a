SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  BoxSet = {"b1", "b2"}
  NameSet = {1, 2}
  Beads = {1, 2}
  TimeSet = {1, 2}
  MaxCopies = 2
  MaxConds = 1
INVARIANTS AnswersRight Strict OnePick Ends
