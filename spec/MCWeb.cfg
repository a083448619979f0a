SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NameSet = {1, 2}
  Versions = {1, 2}
  MaxOps = 2
  Ties = FALSE
INVARIANTS AlwaysSound ColoursAsDeclared ColoursUnique TransitivelyFresh FiltersAsDeclared NothingInvented FilterAgain UnknownSelectNothing HeadsKept ReloadKeeps
