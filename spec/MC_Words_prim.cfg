CONSTANTS WordBits = 2  NW = 2  Cap = 3  NR = 1
CONSTANT DS <- Subsets3
CONSTANT Make <- MakeConv
SPECIFICATION WSpec
VIEW WView
INVARIANTS Clean DoneMeansEmpty
PROPERTY Refines
CHECK_DEADLOCK FALSE
