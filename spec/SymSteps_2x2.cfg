SPECIFICATION Spec
CONSTANTS N = 2  T = 2  Variant = "ok"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
