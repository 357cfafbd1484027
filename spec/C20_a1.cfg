SPECIFICATION Spec
CONSTANTS Fams = {"power", "expo", "gauss", "hump"}
 Exps = {2, 3, 6}
 Starts <- StartsQ
 Units <- UnitsQ
 Sides = {"plus", "minus"}
 MaxStep = 25
INVARIANTS Decreasing Vanishes Farther EmitInv
CHECK_DEADLOCK FALSE
