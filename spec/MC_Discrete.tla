---------------------------- MODULE MC_Discrete ----------------------------
EXTENDS Discrete
R(n) == <<n, 1>>
UnaryFull == {<<"neg">>, <<"abs">>, <<"sqr">>, <<"inv">>, <<"sign">>,
   <<"addc", R(2)>>, <<"raddc", <<-1,2>>>>, <<"subc", R(1)>>, <<"rsubc", R(1)>>,
   <<"mulc", R(2)>>, <<"mulc", R(-1)>>, <<"rmulc", <<-1,2>>>>, <<"divc", R(-2)>>, <<"rdivc", R(2)>>,
   <<"minc", R(1)>>, <<"rminc", <<1,2>>>>, <<"maxc", R(0)>>, <<"rmaxc", R(-1)>>,
   <<"gt", R(0)>>, <<"gt", R(-2)>>, <<"gt", <<1,2>>>>, <<"gt", R(1)>>,
   <<"lt", R(0)>>, <<"lt", R(2)>>, <<"lt", <<1,2>>>>, <<"lt", R(5)>>,
   <<"bt", R(-1), R(2)>>, <<"bt", R(0), R(3)>>, <<"bt", <<-3,2>>, <<1,2>>>>, <<"bt", R(-5), R(5)>>}
UnarySome == {<<"neg">>, <<"abs">>, <<"sqr">>, <<"inv">>, <<"sign">>, <<"addc", R(1)>>, <<"rsubc", R(1)>>, <<"mulc", R(2)>>,
   <<"gt", R(0)>>, <<"lt", R(1)>>, <<"bt", R(-1), R(3)>>}
=============================================================================
