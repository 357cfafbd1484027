SPECIFICATION Spec
CONSTANTS Grid <- GridT
 FirstSize = {1,2,3,4,5}
 MoreSize = {1,2,3}
 Degs = {0,2,3,5}
 Points <- PointsQ
INVARIANTS Through Reproduces SumOne EmitInv
CHECK_DEADLOCK FALSE
