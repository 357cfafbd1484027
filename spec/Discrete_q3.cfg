SPECIFICATION Spec
CONSTANTS Leaves = {"A","B","G"}
 Unary = {}
 Binary = {"add","sub","mul","div","min","max","mix"}
 MaxLeaves = 3
 MaxUnary = 0
 MaxVals = 40
INVARIANTS LawsOK Algebra EmitInv
CHECK_DEADLOCK FALSE
