SPECIFICATION Spec
CONSTANTS
  MaxRecords = 2
  Wide = FALSE
INVARIANTS Contains InZone NoTwice CnameAlone OneDname NamesExist Reasonable LookupIsStandard TogetherAsAlone ClassIsFresh OrderOfRecords
VIEW Symmetric
CHECK_DEADLOCK FALSE
