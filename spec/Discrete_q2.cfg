SPECIFICATION Spec
CONSTANTS Leaves = {"B","C","D","G"}
 Unary <- UnarySome
 Binary = {"add","sub","mul","div","min","max","mix"}
 MaxLeaves = 2
 MaxUnary = 1
 MaxVals = 40
INVARIANTS LawsOK Algebra EmitInv
CHECK_DEADLOCK FALSE
