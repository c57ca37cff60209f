CONSTANT WordBits = 64
CONSTANT Family = "array"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
