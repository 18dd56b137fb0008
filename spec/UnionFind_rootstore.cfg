SPECIFICATION Spec
CONSTANTS N = 3
 T = 3
 MaxEdges = 1
 RootStore = TRUE
INVARIANTS Decreasing Sound Correct
