CONSTANTS NumCores = 2 PerCore = 1 Buffers = 1 SelfFold = FALSE
SPECIFICATION Spec
INVARIANTS Safe Right
CHECK_DEADLOCK TRUE
