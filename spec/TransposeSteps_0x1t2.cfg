SPECIFICATION Spec
CONSTANTS M = 0  N = 1  T = 2  Drop = 0
INVARIANTS SumOk InRange EndOk
PROPERTIES Ends
