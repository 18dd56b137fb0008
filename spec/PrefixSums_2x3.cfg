SPECIFICATION Spec
CONSTANTS T = 2  Rounds = 3  Drop = 0  Vals = {0, 1, 3}
INVARIANTS Ok
PROPERTIES Ends
