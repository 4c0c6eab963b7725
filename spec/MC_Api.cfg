INIT Init
NEXT Next
INVARIANT InvDoc
INVARIANT InvReparse
PROPERTY SetOps
CHECK_DEADLOCK FALSE
