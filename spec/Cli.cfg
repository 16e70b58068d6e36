SPECIFICATION Spec
INVARIANTS
  Consumed
  Report
CHECK_DEADLOCK FALSE
