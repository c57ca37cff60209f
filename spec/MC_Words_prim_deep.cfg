CONSTANTS WordBits = 3  NW = 2  Cap = 5  NR = 1
CONSTANT DS <- Subsets5
CONSTANT Make <- MakeConv
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
