CONSTANTS NumCores = 2 PerCore = 1 Ordered = FALSE Cap = 3 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Safe Visible Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
