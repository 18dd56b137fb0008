SPECIFICATION Spec
CONSTANTS Sizes = {6}
 Align = 1
 Reqs = {0,1,2,3}
 MaxLive = 3
 GEN = "all"
 MaxNext = 99
INVARIANTS Inside Disjoint Covered WellAligned
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
