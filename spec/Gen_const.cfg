CONSTANT WordBits = 64
CONSTANT Family = "const"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
