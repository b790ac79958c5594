CONSTANTS B = 3
 Depth = 1
 M0 = 0
 V = 1
 Variant = "design"
SPECIFICATION Spec
INVARIANTS Refines Listed Looked Canonical Persistent Unmodified PathCopy Retained Diffs Maps Aggregates
CHECK_DEADLOCK FALSE
