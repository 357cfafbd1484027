SPECIFICATION Spec
CONSTANTS Leaves <- AllLeaves
 Unary <- UnOps
 Binary = {}
 MaxLeaves = 1
 MaxUnary = 2
 MaxDeg = 2
 Pairs = FALSE
INVARIANTS TopOK MomentsOK DensOK SumEmit
CHECK_DEADLOCK FALSE
