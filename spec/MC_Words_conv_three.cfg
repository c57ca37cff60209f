CONSTANTS WordBits = 2  NW = 3  Cap = 6  NR = 1
CONSTANT DS <- Subsets6
CONSTANT Make <- MakeConv
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
