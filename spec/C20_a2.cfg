SPECIFICATION Spec
CONSTANTS Fams = {"power", "expo", "gauss", "hump"}
 Exps = {2, 3, 4, 5, 6, 9}
 Starts <- StartsT
 Units <- UnitsT
 Sides = {"plus", "minus"}
 MaxStep = 25
INVARIANTS Decreasing Vanishes Farther EmitInv
CHECK_DEADLOCK FALSE
