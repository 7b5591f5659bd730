SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Prop = "P20"
  By = 2
  MaxFields = 2
  Deep = FALSE
CHECK_DEADLOCK FALSE
