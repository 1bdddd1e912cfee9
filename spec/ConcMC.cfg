INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
INVARIANTS
  Sequential
  Isolated
  Fresh
  Emit
