SPECIFICATION Spec
INVARIANTS
  Registers
  Report
CHECK_DEADLOCK FALSE
