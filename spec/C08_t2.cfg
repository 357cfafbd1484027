SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Leaves = {"n01","u02","c1","x2","g2","b12","p11","s2","f22"}
 MaxSteps = 3
 UnSet = {"neg","addc","rsubc","mulc","divc","rdivc","powc","sqr","abs","exp","log","sqrt","atan","tan","sin","cos","sigmoid","tanh","gt","lt"}
 BinSet = {"add","sub","mul","div","max","min"}
 SecondLeaves = {"n01","x1","u01","c1"}
 Prepare = {"neg","sqr"}
INVARIANTS Proper Moments Positive Cdfs EmitInv
