SPECIFICATION Spec
CONSTANTS Names <- AllNames
 MaxOps = 2
 UnOps <- AllUn
 BinOps <- AllBin
 AllOrders = FALSE
INVARIANTS Ordered ValOK IntOK AtomsOK EmitPw
CHECK_DEADLOCK FALSE
