INIT Init
NEXT Next
INVARIANT DocInv
INVARIANT InvNavigable
PROPERTY Grows
CHECK_DEADLOCK FALSE
