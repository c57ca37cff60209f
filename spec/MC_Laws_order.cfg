CONSTANTS WordBits = 2  MaxBit = 2
SPECIFICATION OSpec
VIEW OView
INVARIANTS OrdIsOrder OrdTransitive CmpDetermined
CHECK_DEADLOCK FALSE
