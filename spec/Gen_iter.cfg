CONSTANT WordBits = 64
CONSTANT Family = "iter"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
