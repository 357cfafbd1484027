------------------------------- MODULE MC_Dag -------------------------------
EXTENDS Dag
R(a, b) == <<a, b>>
UnAll == {"neg", "abs", "sqr", "inv", "exp", "log", "sqrt", "sign", "atan", "tanh", "sigmoid", "sin", "cos", "tan"}
UnCAll == {<<"addc", R(3,1)>>, <<"raddc", R(-1,2)>>, <<"subc", R(1,1)>>, <<"rsubc", R(2,1)>>, <<"mulc", R(-2,1)>>, <<"rmulc", R(3,2)>>,
           <<"divc", R(4,1)>>, <<"rdivc", R(3,1)>>, <<"powc", R(3,1)>>, <<"powc", R(1,2)>>, <<"rpow", R(2,1)>>, <<"maxc", R(1,1)>>, <<"minc", R(1,2)>>}
BinAll == {"add", "sub", "mul", "div", "max", "min", "pow"}
UnMid == {"abs", "sqr", "exp"}
UnFew == {"neg", "exp"}
UnCFew == {<<"rsubc", R(2,1)>>}
BinFew == {"sub", "mul"}
BinMid == {"add", "sub", "mul", "div"}
=============================================================================
