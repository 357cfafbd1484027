SPECIFICATION Spec
CONSTANTS Names <- FewNames
 MaxOps = 2
 UnOps <- FewUn
 BinOps <- FewBin
 AllOrders = FALSE
INVARIANTS Ordered ValOK IntOK AtomsOK EmitPw
CHECK_DEADLOCK FALSE
