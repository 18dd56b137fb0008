CONSTANTS NumCores = 1 PerCore = 2 Ordered = TRUE Cap = 3 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Safe Visible Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
