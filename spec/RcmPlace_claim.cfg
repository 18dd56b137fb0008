SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Variant = "claim"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
