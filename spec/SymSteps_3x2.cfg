SPECIFICATION Spec
CONSTANTS N = 3  T = 2  Variant = "ok"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
