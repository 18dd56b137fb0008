SPECIFICATION Spec
CONSTANTS N = 3  T = 3  Variant = "plain"
INVARIANTS SlotOk EndOk
PROPERTIES Ends
