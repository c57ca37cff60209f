CONSTANTS WordBits = 2  NW = 2  Cap = 4  NR = 3
CONSTANT DS <- Subsets4
CONSTANT Make <- MakeSet
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
