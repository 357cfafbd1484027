SPECIFICATION Spec
CONSTANTS Leaves <- TwoLeaves
 Ops <- Ops3
 MaxOps = 3
INVARIANTS LawOK Pairs Even EmitInv
CHECK_DEADLOCK FALSE
