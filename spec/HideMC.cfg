INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS
  IsComplete
  SameRoot
  Partial
  Canonical
  EmitState
