SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Variant = "b2"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
