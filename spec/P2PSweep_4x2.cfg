CONSTANTS N = 4 T = 2 Sweeps = 2 Ordered = TRUE Join = TRUE Meet = TRUE
SPECIFICATION Spec
INVARIANT Fresh
PROPERTY Ends
CHECK_DEADLOCK TRUE
