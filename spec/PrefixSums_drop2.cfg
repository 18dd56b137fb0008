SPECIFICATION Spec
CONSTANTS T = 3  Rounds = 2  Drop = 2  Vals = {0, 1, 3}
INVARIANTS Ok
PROPERTIES Ends
