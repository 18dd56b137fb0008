SPECIFICATION Spec
CONSTANTS N = 4  T = 3  Atomic = FALSE  Loop = FALSE  Variant = "ok"
INVARIANTS LevOk ShareOk RoomOk EndOk
PROPERTIES Ends
