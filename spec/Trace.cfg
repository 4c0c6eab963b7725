INIT Init
NEXT Next
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
VIEW View
