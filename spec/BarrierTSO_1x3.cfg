CONSTANTS NumCores = 1 PerCore = 3 Ordered = TRUE Cap = 2 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Safe Visible Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
