---------------------------- MODULE MC_GridCalc ----------------------------
EXTENDS GridCalc
AllLeaves == {"U01","UM","UN","UP","STEP","SKEW","GAP","C2","D2","D3","ME","MR","MI","MO","MJ","H3"}
NumOps == {<<o, c>> : o \in {"maxc", "rminc"}, c \in {-8, -4, -2, 0, 2, 4, 8}} \cup {<<o, c>> : o \in {"minc", "rmaxc"}, c \in {-4, 0, 2, 4}}
CutPts == {-12, -8, -6, -4, -2, 0, 2, 4, 6, 8}
CutOps == {<<o, c>> : o \in {"gt", "lt"}, c \in CutPts} \cup
          {<<"bt", a, b>> : a \in {-12, -8, -4, -2, 0, 2}, b \in {-4, 0, 2, 4, 6, 12}}
Few == {<<"gt", 0>>, <<"lt", 2>>, <<"bt", -4, 4>>, <<"neg">>, <<"abs">>, <<"rsubc", 4>>, <<"maxc", 0>>, <<"minc", 2>>}
=============================================================================
