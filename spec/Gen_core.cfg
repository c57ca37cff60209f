CONSTANT WordBits = 64
CONSTANT Family = "core"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
