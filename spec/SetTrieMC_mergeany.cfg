CONSTANTS B = 2
 NL = 1
 Variant = "merge any"
INIT Init
NEXT Next
INVARIANTS Algebra Inclusion Idle Allocation Paths Ranges
CHECK_DEADLOCK FALSE
