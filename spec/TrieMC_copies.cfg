CONSTANTS B = 1
 Depth = 1
 M0 = 0
 V = 2
 Variant = "copies"
SPECIFICATION Spec
INVARIANTS Refines Listed Looked Canonical Persistent Unmodified PathCopy Retained Diffs Maps Aggregates
CHECK_DEADLOCK FALSE
