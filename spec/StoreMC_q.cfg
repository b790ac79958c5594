CONSTANTS B = 2
 Sharing = TRUE
 Variant = "design"
 Steps = 40
 Objects = 4
 SetObjects = 4
 V = 3
 Weight = 6
 Pick <- PickOne
SPECIFICATION Spec
INVARIANTS Refines SetsRefine OneMeaning CmpOK ZeroEmpty
PROPERTIES Immutable Apart SetsApart
CHECK_DEADLOCK FALSE
