INIT Init
NEXT Next
INVARIANTS Agrees Laws
CHECK_DEADLOCK FALSE
