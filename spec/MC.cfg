SPECIFICATION Spec
CONSTANTS Prop = "P02"
 By = 2
 Sizes = {2}
 MaxFields = 2
 Deep = FALSE
INVARIANT TypeOK
PROPERTY Property
VIEW View
CHECK_DEADLOCK FALSE
