SPECIFICATION Spec
CONSTANTS Sizes = {11,13}
 Align = 3
 Reqs = {1,2,3,4,6}
 MaxLive = 5
 GEN = "no"
 MaxNext = 99
INVARIANTS Inside Disjoint Covered WellAligned
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
