SPECIFICATION Spec
CONSTANTS M = 2  N = 2  T = 3  Drop = 2
INVARIANTS SumOk InRange EndOk
PROPERTIES Ends
