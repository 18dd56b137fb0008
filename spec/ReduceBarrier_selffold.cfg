CONSTANTS NumCores = 1 PerCore = 1 Buffers = 2 SelfFold = TRUE
SPECIFICATION Spec
INVARIANTS Safe Right
CHECK_DEADLOCK TRUE
