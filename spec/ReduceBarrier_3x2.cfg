CONSTANTS NumCores = 3 PerCore = 2 Buffers = 2 SelfFold = FALSE
SPECIFICATION Spec
INVARIANTS Safe Right
CHECK_DEADLOCK TRUE
