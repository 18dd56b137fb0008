CONSTANTS NumCores = 2 PerCore = 1 Buffers = 2 SelfFold = FALSE
SPECIFICATION Spec
INVARIANTS Safe Right
PROPERTY Live
CHECK_DEADLOCK TRUE
