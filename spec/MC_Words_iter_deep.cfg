CONSTANTS WordBits = 3  NW = 3  Cap = 9  NR = 1
CONSTANT DS <- Subsets9
CONSTANT Make <- MakeIter
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
