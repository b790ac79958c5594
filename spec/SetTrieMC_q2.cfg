CONSTANTS B = 1
 NL = 2
 Variant = "design"
INIT Init
NEXT Next
INVARIANTS Algebra Inclusion Idle Allocation Paths Ranges
CHECK_DEADLOCK FALSE
