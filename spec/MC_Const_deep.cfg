CONSTANTS WordBits = 2  MaxBit = 4  MaxArgs = 3
SPECIFICATION CSpec
VIEW CView
INVARIANTS LawFolds LawComplement OnlyVariants
CHECK_DEADLOCK FALSE
