SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Variant = "ok"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
