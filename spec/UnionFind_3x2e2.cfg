SPECIFICATION Spec
CONSTANTS N = 3
 T = 2
 MaxEdges = 2
 RootStore = FALSE
INVARIANTS Decreasing Sound Correct
