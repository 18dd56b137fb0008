CONSTANTS N = 3 T = 2 Sweeps = 2 Ordered = TRUE Join = FALSE Meet = TRUE
SPECIFICATION Spec
INVARIANT Fresh
PROPERTY Ends
CHECK_DEADLOCK TRUE
