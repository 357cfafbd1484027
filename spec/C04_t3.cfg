SPECIFICATION Spec
CONSTANTS Leaves <- FewLeaves
 Ops <- Ops2
 MaxOps = 3
INVARIANTS LawOK Pairs Even EmitInv
CHECK_DEADLOCK FALSE
