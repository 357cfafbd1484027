SPECIFICATION Spec
CONSTANTS Leaves <- AllLeaves
 Ops <- Ops1
 MaxOps = 1
INVARIANTS LawOK Pairs Even EmitInv
CHECK_DEADLOCK FALSE
