CONSTANT WordBits = 64
CONSTANT Family = "repr"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
