CONSTANTS WordBits = 2  MaxBit = 6
SPECIFICATION ISpec
VIEW IView
INVARIANTS IterationExact IterationExhausts OnlyVariants
CHECK_DEADLOCK FALSE
