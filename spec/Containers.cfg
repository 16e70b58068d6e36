SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Kinds = {"dict", "stack"}
INVARIANTS
  Latest
  Report
CHECK_DEADLOCK FALSE
