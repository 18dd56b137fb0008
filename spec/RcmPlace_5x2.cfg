SPECIFICATION Spec
CONSTANTS N = 5  T = 2  Variant = "ok"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
