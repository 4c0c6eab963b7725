INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Ends
PROPERTY Promises
CHECK_DEADLOCK FALSE
