CONSTANTS Procs = {1,2,3}
 Keys = {1,2}
 MaxOps = 2
 Variant = "once"
INIT Init
NEXT Next
INVARIANTS Explained NeverStuck
PROPERTY Immutable
CHECK_DEADLOCK FALSE
