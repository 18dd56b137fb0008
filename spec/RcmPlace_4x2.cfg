SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Variant = "ok"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
