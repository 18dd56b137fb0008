SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Variant = "b1"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
