SPECIFICATION Spec
CONSTANTS T = 4  Rounds = 2  Drop = 0  Vals = {0, 1}
INVARIANTS Ok
PROPERTIES Ends
