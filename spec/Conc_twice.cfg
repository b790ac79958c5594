CONSTANTS Procs = {1,2,3}
 Keys = {1}
 MaxOps = 2
 Variant = "twice"
INIT Init
NEXT Next
INVARIANTS Explained NeverStuck
PROPERTY Immutable
CHECK_DEADLOCK FALSE
