CONSTANTS NumCores = 2 PerCore = 1 Ordered = TRUE Cap = 3 Locked = FALSE
SPECIFICATION Spec
INVARIANTS Safe Visible Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
