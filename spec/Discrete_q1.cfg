SPECIFICATION Spec
CONSTANTS Leaves = {"A","B","C","D","E","G","H","K"}
 Unary <- UnaryFull
 Binary = {"add"}
 MaxLeaves = 1
 MaxUnary = 2
 MaxVals = 40
INVARIANTS LawsOK Algebra EmitInv
CHECK_DEADLOCK FALSE
