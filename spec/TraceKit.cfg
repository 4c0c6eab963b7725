INIT Init
NEXT Next
INVARIANT TraceInv
PROPERTY Promises
CHECK_DEADLOCK FALSE
VIEW View
