SPECIFICATION Spec
INVARIANT Inv
PROPERTY Steps
CONSTANTS
  Prop = "P26"
CHECK_DEADLOCK FALSE
