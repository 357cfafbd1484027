SPECIFICATION Spec
CONSTANTS Errs = {0, 1, 2, 3, 8}
 Vals = {1, 4, 5}
 Pars = {1, 2, 3, 4, 5, 6}
 MaxLen = 4
 Walks = 3000
 WalkLen = 12
INVARIANTS StopOK NoEarlyStop GoodOK BestOK EmitInv
CHECK_DEADLOCK FALSE
