CONSTANTS B = 1
 N = 1
 V = 3
 M0 = 2
INIT Init
NEXT Next
INVARIANTS Longest Lookups Sorted Ops Reduced
CHECK_DEADLOCK FALSE
