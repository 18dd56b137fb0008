CONSTANTS NumCores = 2 PerCore = 1 Parities = 1
SPECIFICATION Spec
INVARIANTS Safe
CHECK_DEADLOCK TRUE
