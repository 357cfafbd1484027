SPECIFICATION Spec
CONSTANTS Fams = {"pi", "clay1", "clay2", "clay3", "arch", "M", "W"}
 Top = 5
 Dims = 3
 Size = 12
INVARIANTS Margins Grounded Symmetric Associative Increasing BelowUpper Bounds Extreme BoxesOK DensityOK CondRange CondChain CondMean EmitInv
CHECK_DEADLOCK FALSE
