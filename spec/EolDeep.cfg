SPECIFICATION Spec
CONSTANTS MaxLen = 8
INVARIANTS
  Clean
  Kept
  Untouched
  Fixed
  Report
CHECK_DEADLOCK FALSE
