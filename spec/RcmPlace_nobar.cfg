SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Variant = "nobar"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
