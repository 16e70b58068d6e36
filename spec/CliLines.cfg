SPECIFICATION SpecLines
INVARIANTS
  Consumed
  Report
CHECK_DEADLOCK FALSE
