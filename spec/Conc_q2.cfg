CONSTANTS Procs = {1,2}
 Keys = {1}
 MaxOps = 3
 Variant = "once"
INIT Init
NEXT Next
INVARIANTS Explained NeverStuck
PROPERTY Immutable
CHECK_DEADLOCK FALSE
