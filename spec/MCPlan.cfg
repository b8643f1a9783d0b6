SPECIFICATION Spec
CONSTANTS
  MaxRecords = 2
  Deep = FALSE
INVARIANTS ClassesCover SingleNames
VIEW View
CHECK_DEADLOCK FALSE
