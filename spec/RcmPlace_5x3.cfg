SPECIFICATION Spec
CONSTANTS N = 5  T = 3  Variant = "ok"
INVARIANTS ReadOk WriteOk EndOk
PROPERTIES Ends
