SPECIFICATION Spec
CONSTANTS N = 4  T = 3  Atomic = TRUE  Loop = TRUE  Variant = "ok"
INVARIANTS LevOk ShareOk RoomOk EndOk
PROPERTIES Ends
