CONSTANTS B = 2
 N = 1
 V = 1
 M0 = 0
INIT Init
NEXT Next
INVARIANTS Longest Lookups Sorted Ops Reduced
CHECK_DEADLOCK FALSE
