SPECIFICATION Spec
CONSTANTS N = 4  T = 2  Atomic = FALSE  Loop = FALSE  Variant = "nojoin"
INVARIANTS LevOk ShareOk RoomOk EndOk
PROPERTIES Ends
