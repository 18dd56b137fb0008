SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Variant = "b3"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
