SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Kinds = {"dict", "stack"}
INVARIANTS
  Latest
  Report
CHECK_DEADLOCK FALSE
