INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS
  Refines
  Shape
  Lookups
  Iteration
  ReadBack
  EmitState
