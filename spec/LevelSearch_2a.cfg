SPECIFICATION Spec
CONSTANTS T = 2  MaxLevels = 4  Sizes = {1, 2, 3, 4}  Thresh = 2  Variant = "ok"
INVARIANTS LevOk PartOk SerialOk EndOk
PROPERTIES Ends
