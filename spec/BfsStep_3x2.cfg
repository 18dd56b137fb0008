SPECIFICATION Spec
CONSTANTS N = 3  T = 2  Atomic = FALSE  Loop = TRUE  Variant = "ok"
INVARIANTS LevOk ShareOk RoomOk EndOk
PROPERTIES Ends
