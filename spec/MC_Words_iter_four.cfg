CONSTANTS WordBits = 2  NW = 4  Cap = 8  NR = 1
CONSTANT DS <- Subsets8
CONSTANT Make <- MakeIter
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
