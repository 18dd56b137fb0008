SPECIFICATION Spec
CONSTANTS Sizes = {23, 40}
 Align = 3
 Reqs = {0,1,2,3,4,7,10,15}
 MaxLive = 7
 GEN = "end"
 MaxNext = 60
INVARIANTS Inside Disjoint Covered WellAligned
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
