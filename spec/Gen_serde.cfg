CONSTANT WordBits = 64
CONSTANT Family = "serde"
SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CHECK_DEADLOCK FALSE
