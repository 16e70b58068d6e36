SPECIFICATION Spec
CONSTANTS MaxDirs = 4
INVARIANTS
  Once
  All
  Report
CHECK_DEADLOCK FALSE
