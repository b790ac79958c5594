CONSTANTS B = 1
 Depth = 2
 M0 = 2
 V = 3
 Variant = "design"
SPECIFICATION Spec
INVARIANTS Refines Listed Looked Canonical Persistent Unmodified PathCopy Retained Diffs Maps Aggregates
CHECK_DEADLOCK FALSE
