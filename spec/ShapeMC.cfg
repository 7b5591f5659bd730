SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Prop = "P25"
CHECK_DEADLOCK FALSE
