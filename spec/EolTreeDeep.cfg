SPECIFICATION Spec
CONSTANTS MaxDirs = 5
INVARIANTS
  Once
  All
  Report
CHECK_DEADLOCK FALSE
