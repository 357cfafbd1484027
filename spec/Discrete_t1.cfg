SPECIFICATION Spec
CONSTANTS Leaves = {"A","B","D","G"}
 Unary <- UnarySome
 Binary = {"add","sub","mul","div","min","max","mix"}
 MaxLeaves = 2
 MaxUnary = 2
 MaxVals = 40
INVARIANTS LawsOK Algebra EmitInv
CHECK_DEADLOCK FALSE
