CONSTANTS NumCores = 3 PerCore = 1 Ordered = TRUE Cap = 4 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Safe Visible Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
