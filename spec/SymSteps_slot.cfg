SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Variant = "slot"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
