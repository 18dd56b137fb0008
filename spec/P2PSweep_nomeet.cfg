CONSTANTS N = 3 T = 2 Sweeps = 2 Ordered = TRUE Join = TRUE Meet = FALSE
SPECIFICATION Spec
INVARIANT Fresh
PROPERTY Ends
CHECK_DEADLOCK TRUE
