SPECIFICATION Spec
CONSTANTS T = 3  MaxLevels = 4  Sizes = {1, 4}  Thresh = 2  Variant = "ok"
INVARIANTS LevOk PartOk SerialOk EndOk
PROPERTIES Ends
