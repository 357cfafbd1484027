SPECIFICATION Spec
CONSTANTS Leaves = {"A","B","C","G","E"}
 Unary = {}
 Binary = {"add","sub","mul","div","min","max","mix"}
 MaxLeaves = 3
 MaxUnary = 0
 MaxVals = 60
INVARIANTS LawsOK Algebra EmitInv
CHECK_DEADLOCK FALSE
