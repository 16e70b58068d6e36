SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS
  Clean
  Kept
  Untouched
  Fixed
  Report
CHECK_DEADLOCK FALSE
