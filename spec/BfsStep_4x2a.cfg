SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Atomic = TRUE  Loop = FALSE  Variant = "ok"
INVARIANTS LevOk ShareOk RoomOk EndOk
PROPERTIES Ends
