SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Variant = "early"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
