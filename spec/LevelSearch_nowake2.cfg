SPECIFICATION Spec
CONSTANTS T = 2  MaxLevels = 5  Sizes = {1,4}  Thresh = 2  Variant = "nowake2"
INVARIANTS LevOk PartOk SerialOk EndOk
PROPERTIES Ends
