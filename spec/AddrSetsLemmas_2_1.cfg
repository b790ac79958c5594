CONSTANTS B = 2
 NL = 1
INIT Init
NEXT Next
INVARIANTS Lemmas1 Lemmas2 Lemmas3 Lemmas4 Lemmas5
CHECK_DEADLOCK FALSE
