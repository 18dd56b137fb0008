CONSTANTS NumCores = 1 PerCore = 3 Parities = 2
SPECIFICATION Spec
INVARIANTS Safe Ready
PROPERTY Live
CHECK_DEADLOCK TRUE
