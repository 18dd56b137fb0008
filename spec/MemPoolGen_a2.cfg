SPECIFICATION Spec
CONSTANTS Sizes = {7,9}
 Align = 2
 Reqs = {1,2,3,5}
 MaxLive = 3
 GEN = "all"
 MaxNext = 99
INVARIANTS Inside Disjoint Covered WellAligned
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
