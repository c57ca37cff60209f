CONSTANTS WordBits = 2  MaxBit = 6
SPECIFICATION LStatic
INVARIANTS LawAlgebra LawNumbers LawArrays LawDocuments LawRendering
CHECK_DEADLOCK FALSE
