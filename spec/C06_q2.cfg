SPECIFICATION Spec
CONSTANTS Leaves <- PairLeaves
 Unary = {}
 Binary = {"max","mix:1,3"}
 MaxLeaves = 2
 MaxUnary = 0
 MaxDeg = 2
 Pairs = TRUE
INVARIANTS TopOK MomentsOK DensOK PairOK SumEmit
CHECK_DEADLOCK FALSE
