SPECIFICATION Spec
CONSTANTS Sizes = {8}
 Align = 1
 Reqs = {1,2,3,5}
 MaxLive = 4
 GEN = "all"
 MaxNext = 99
INVARIANTS Inside Disjoint Covered WellAligned
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
