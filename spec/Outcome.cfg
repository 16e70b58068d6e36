SPECIFICATION Spec
INVARIANTS
  OneEnd
  Report
CHECK_DEADLOCK FALSE
