SPECIFICATION Spec
INVARIANTS
  AllOrNothing
  NothingUnread
  Report
CHECK_DEADLOCK FALSE
