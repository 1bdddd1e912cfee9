SPECIFICATION Spec
CHECK_DEADLOCK TRUE
INVARIANTS
  Sequential
PROPERTIES
  Finishes
