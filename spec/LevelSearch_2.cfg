SPECIFICATION Spec
CONSTANTS T = 2  MaxLevels = 5  Sizes = {1, 2, 3}  Thresh = 2  Variant = "ok"
INVARIANTS LevOk PartOk SerialOk EndOk
PROPERTIES Ends
