------------------------------ MODULE MC_Words ------------------------------
EXTENDS WordRepr
Subsets2 == SUBSET (0 .. 1)
Subsets3 == SUBSET (0 .. 2)
Subsets4 == SUBSET (0 .. 3)
Subsets5 == SUBSET (0 .. 4)
Subsets8 == SUBSET (0 .. 7)
Subsets9 == SUBSET (0 .. 8)
Subsets6 == SUBSET (0 .. 5)
MakeSet == {"set"}
MakeIter == {"iter"}
MakeConv == {"conv"}
=============================================================================
