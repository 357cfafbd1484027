---------------------------- MODULE MC_Summary ----------------------------
EXTENDS Summary
AllLeaves == {"U01","UM","UN","UP","STEP","SKEW","GAP","C0","C2","CN","D2","D3","DP","ME","MR","MI","MO","MJ","MP","MN","H3","TR","TM","TN","TP","TA","TF"}
PairLeaves == {"U01","UM","SKEW","STEP","GAP","D2","D3","MI","MJ","MO","TR","TM","TA"}
UnOps == {<<"neg">>, <<"abs">>, <<"rsubc", 6>>, <<"addc", 40>>, <<"gt", 0>>, <<"lt", 4>>, <<"bt", -4, 4>>}
=============================================================================
