CONSTANTS WordBits = 2  MaxBit = 4
SPECIFICATION ISpec
VIEW IView
INVARIANTS IterationExact IterationExhausts OnlyVariants
CHECK_DEADLOCK FALSE
