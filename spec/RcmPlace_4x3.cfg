SPECIFICATION Spec
CONSTANTS N = 4  T = 3  Variant = "ok"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
