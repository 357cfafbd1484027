--------------------------- MODULE MC_Transform ---------------------------
EXTENDS Transform
AllLeaves == {"U01","UM","UN","UP","STEP","SKEW","GAP","C2","CN","C0","D2","D3","DP","ME","MR","MI","MO","MJ","MP","MN","H3","TR","TM","TN","TP","TA","TF"}
FewLeaves == {"U01","SKEW","GAP","D2","MI","MP","MJ","TR","TM","TN","TA"}
TwoLeaves == {"TM", "MP"}
R(a, b) == <<a, b>>
Ops1 == {<<o>> : o \in {"neg","abs","inv","sqr","sqrt","exp","log","sign","atan","tanh","sigmoid","tan"}}
   \cup {<<"addc", R(3,1)>>, <<"addc", R(0,1)>>, <<"addc", R(-5,2)>>, <<"addc", R(1,3)>>, <<"raddc", R(2,1)>>, <<"subc", R(1,1)>>, <<"subc", R(1,4)>>, <<"rsubc", R(1,1)>>, <<"rsubc", R(-1,3)>>}
   \cup {<<"mulc", R(1,1)>>, <<"mulc", R(2,1)>>, <<"mulc", R(-1,1)>>, <<"mulc", R(-3,7)>>, <<"rmulc", R(-2,1)>>, <<"rmulc", R(1,1)>>, <<"rmulc", R(3,10)>>, <<"divc", R(1,1)>>, <<"divc", R(-4,1)>>, <<"divc", R(1,3)>>}
   \cup {<<"rdivc", R(1,1)>>, <<"rdivc", R(-2,1)>>, <<"rdivc", R(3,2)>>}
   \cup {<<"powc", R(1,1)>>, <<"powc", R(-1,1)>>, <<"powc", R(3,1)>>, <<"powc", R(1,2)>>, <<"powc", R(-1,2)>>, <<"powc", R(3,2)>>, <<"powc", R(-2,1)>>}
   \cup {<<"rpow", R(2,1)>>, <<"rpow", R(1,2)>>, <<"rpow", R(3,1)>>}
Ops2 == {<<o>> : o \in {"neg","abs","inv","sqr","sqrt","exp","log","atan","tanh","sigmoid","tan"}}
   \cup {<<"addc", R(3,1)>>, <<"rsubc", R(1,2)>>, <<"mulc", R(-3,7)>>, <<"divc", R(1,3)>>, <<"rdivc", R(-2,1)>>,
         <<"powc", R(3,1)>>, <<"powc", R(-1,2)>>, <<"rpow", R(1,2)>>}
Ops3 == {<<"neg">>, <<"abs">>, <<"inv">>, <<"sqr">>, <<"sqrt">>, <<"exp">>, <<"log">>, <<"atan">>, <<"sigmoid">>,
         <<"addc", R(3,1)>>, <<"mulc", R(-3,7)>>, <<"powc", R(3,2)>>}
=============================================================================
