CONSTANT WordBits = 64
SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
