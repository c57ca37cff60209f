CONSTANT WordBits = 64
CONSTANT Family = "int"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
