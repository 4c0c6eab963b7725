INIT Init
NEXT Next
INVARIANT InvDoc
PROPERTY Apart
PROPERTY Kept
PROPERTY AsTheFirst
CHECK_DEADLOCK FALSE
