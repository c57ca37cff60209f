CONSTANT WordBits = 64
CONSTANT Decls <- GenDecls
SPECIFICATION GSpec
INVARIANTS VerdictRight NumberingRight
CHECK_DEADLOCK FALSE
