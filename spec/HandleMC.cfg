INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS
  Fresh
  InnerAgrees
  EmitContents
PROPERTIES
  Isolated
