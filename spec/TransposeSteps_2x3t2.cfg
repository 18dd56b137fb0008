SPECIFICATION Spec
CONSTANTS M = 2  N = 3  T = 2  Drop = 0
INVARIANTS SumOk InRange EndOk
PROPERTIES Ends
