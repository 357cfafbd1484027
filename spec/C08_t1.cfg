SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Leaves = {"n01","n02","n32","nh","n100","u01","u11","u02","u13","up1","up2","up3","c1","c2","ch","x1","x2","x3","x4","x7","e1","e3","eh","g2","g3","gh","g22","g5h","b12","b21","b22","b31","b32","bhh","b1h","b33","p11","p21","p32","p51","l1","l4","l9","a1","a2","t1","t3","t4","s1","s2","f22","f24","f35","f11","w21","w12","w31","wh","gu","gu2","fr1","fr2","fr3","fr1b","ll1","ll2","ll3","po1","po3","bi1","bi2","be","bb","bi3"}
 MaxSteps = 2
 UnSet = {"neg","addc","rsubc","mulc","divc","rdivc","powc","sqr","abs","exp","log","sqrt","atan","tan","sin","cos","sigmoid","tanh","gt","lt"}
 BinSet = {"add","sub","mul","div","max","min"}
 SecondLeaves = {"n01","n32","e1","u01","c1","x1","g2","p11","wh","b1h","s2"}
 Prepare = {"neg","sqr","log","exp","sqrt","abs"}
INVARIANTS Proper Moments Positive Cdfs EmitInv
