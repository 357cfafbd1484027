SPECIFICATION Spec
CONSTANTS Leaves = {"UM","UP","D2","MI","CN"}
 MaxLeaves = 3
 Ops = {"mul","div","mulD","addD"}
INVARIANTS Lattice Sign EmitInv
CHECK_DEADLOCK FALSE
