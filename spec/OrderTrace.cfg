INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
