INIT Init
NEXT Next
INVARIANT InvCtor
CHECK_DEADLOCK FALSE
