CONSTANTS WordBits = 2  NW = 1  Cap = 2  NR = 1
CONSTANT DS <- Subsets2
CONSTANT Make <- MakeConv
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
