CONSTANTS WordBits = 64  MaxLen = 2
CONSTANT Decls <- MCDecls
SPECIFICATION DSpec
INVARIANTS VerdictRight NumberingRight DefaultsFit Counts
PROPERTY EventuallyDecided
CHECK_DEADLOCK FALSE
