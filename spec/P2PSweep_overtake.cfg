CONSTANTS N = 2 T = 2 Sweeps = 2 Ordered = FALSE Join = TRUE Meet = TRUE
SPECIFICATION Spec
INVARIANT Fresh
PROPERTY Ends
CHECK_DEADLOCK TRUE
