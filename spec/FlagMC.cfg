SPECIFICATION Spec
CONSTANTS Prop = "P18"
 Shapes = {12, 21, 31}
 MaxVariants = 2
INVARIANT Inv
PROPERTY Property
CHECK_DEADLOCK FALSE
