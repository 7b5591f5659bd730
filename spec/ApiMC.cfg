SPECIFICATION Spec
CONSTANTS Prop = "P21"
 Given = 2
 Wide = FALSE
INVARIANT Inv
PROPERTY Property
VIEW View
CHECK_DEADLOCK FALSE
