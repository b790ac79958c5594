CONSTANTS B = 1
 Sharing = TRUE
 Variant = "design"
 Steps = 9
 Objects = 0
 SetObjects = 2
 V = 2
 Weight = 1
SPECIFICATION Spec
INVARIANTS Refines SetsRefine OneMeaning CmpOK ZeroEmpty
PROPERTIES Immutable Apart SetsApart
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
