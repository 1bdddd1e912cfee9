INIT Init
NEXT Next
CONSTRAINT Within
CHECK_DEADLOCK FALSE
INVARIANTS
  IsKey
  Laws
