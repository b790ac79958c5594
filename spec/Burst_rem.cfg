CONSTANTS Keys = {1,2,3,4}
Removing = TRUE
INIT Init
NEXT Next
INVARIANTS Conserved AllSucceed
CHECK_DEADLOCK FALSE
