SPECIFICATION Spec
CONSTANTS T = 2  MaxLevels = 4  Sizes = {1,4}  Thresh = 2  Variant = "nojoin"
INVARIANTS LevOk PartOk SerialOk EndOk
PROPERTIES Ends
