SPECIFICATION Spec
CONSTANTS Names <- AllNames
 MaxOps = 1
 UnOps <- AllUn
 BinOps <- AllBin
 AllOrders = TRUE
INVARIANTS Ordered ValOK IntOK AtomsOK EmitPw
CHECK_DEADLOCK FALSE
