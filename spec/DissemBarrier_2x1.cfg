CONSTANTS NumCores = 2 PerCore = 1 Parities = 2
SPECIFICATION Spec
INVARIANTS Safe Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
