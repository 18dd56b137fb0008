SPECIFICATION Spec
CONSTANTS N = 3
 T = 3
 MaxEdges = 1
 RootStore = FALSE
INVARIANTS Decreasing Sound Correct
