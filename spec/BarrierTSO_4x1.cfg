CONSTANTS NumCores = 4 PerCore = 1 Ordered = TRUE Cap = 1 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Safe Visible Ready
CHECK_DEADLOCK TRUE
