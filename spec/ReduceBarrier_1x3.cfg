CONSTANTS NumCores = 1 PerCore = 3 Buffers = 2 SelfFold = FALSE
SPECIFICATION Spec
INVARIANTS Safe Right
PROPERTY Live
CHECK_DEADLOCK TRUE
