SPECIFICATION Spec
CONSTANTS Grid <- GridQ
 FirstSize = {1,2,3,4}
 MoreSize = {1,2}
 Degs = {0,2,3,5}
 Points <- PointsQ
INVARIANTS Through Reproduces SumOne EmitInv
CHECK_DEADLOCK FALSE
