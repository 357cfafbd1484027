------------------------------ MODULE Catalog ------------------------------
(* Leaf laws of the calculator machines: name -> set of <<m, i, weight>>     *)
(* (see CellLaw).  The driver builds the same law in pacal from the items.   *)
EXTENDS CellLaw
LeafItems(n) ==
  CASE n = "U01" -> {<<1,0,1>>}
    [] n = "UM"  -> {<<1,-1,1>>, <<1,0,1>>}                       \* straddles 0
    [] n = "UN"  -> {<<1,-3,1>>, <<1,-2,1>>}                      \* negative
    [] n = "UP"  -> {<<1,2,1>>, <<1,3,1>>, <<1,4,1>>}             \* positive, away from 0
    [] n = "STEP" -> {<<1,0,1>>, <<1,1,3>>}                       \* jump in the density
    [] n = "SKEW" -> {<<1,-2,1>>, <<1,-1,4>>, <<1,0,3>>}          \* three heights over 0
    [] n = "GAP" -> {<<1,-2,1>>, <<1,1,2>>}                       \* hole in the support
    [] n = "C0"  -> {<<0,0,1>>}
    [] n = "C2"  -> {<<0,2,1>>}
    [] n = "CN"  -> {<<0,-1,1>>}
    [] n = "D2"  -> {<<0,-1,1>>, <<0,2,2>>}
    [] n = "D3"  -> {<<0,-1,1>>, <<0,0,2>>, <<0,1,1>>}
    [] n = "DP"  -> {<<0,1,1>>, <<0,2,1>>, <<0,3,3>>}             \* positive atoms
    [] n = "ME"  -> {<<0,0,1>>, <<1,0,1>>}                        \* atom at left edge
    [] n = "MR"  -> {<<1,-1,2>>, <<0,0,1>>}                       \* atom at right edge
    [] n = "MI"  -> {<<1,-1,1>>, <<1,0,1>>, <<0,0,2>>}            \* atom inside, at 0
    [] n = "MO"  -> {<<1,1,2>>, <<0,-2,1>>, <<0,3,1>>}            \* atoms outside the density
    [] n = "MJ"  -> {<<1,0,1>>, <<1,1,3>>, <<0,1,2>>}             \* atom at a jump
    [] n = "MP"  -> {<<1,1,1>>, <<1,2,1>>, <<0,2,1>>, <<0,4,1>>}  \* positive mixed
    [] n = "MN"  -> {<<1,-3,1>>, <<1,-2,2>>, <<0,-2,1>>, <<0,-1,1>>} \* negative mixed
    [] n = "UW"  -> {<<1,i,1>> : i \in 0..29}                     \* 30 times wider than a cell
    [] n = "DF"  -> {<<0,-20,1>>, <<0,0,1>>, <<0,25,2>>}          \* far apart atoms
    [] n = "H3"  -> {<<1,-4,1>>, <<1,-1,2>>, <<1,1,1>>, <<0,0,1>>} \* two holes, atom in one
    [] n = "TR"  -> {<<2,0,1>>}                                   \* triangles: sloping densities
    [] n = "TM"  -> {<<2,-2,1>>, <<2,-1,3>>, <<2,0,2>>}
    [] n = "TN"  -> {<<2,-3,2>>, <<2,-2,1>>}
    [] n = "TP"  -> {<<2,1,1>>, <<2,2,3>>}
    [] n = "TA"  -> {<<2,0,1>>, <<2,1,2>>, <<0,1,1>>}
    [] n = "TF"  -> {<<2,-1,1>>, <<1,1,2>>, <<0,3,1>>}            \* triangle, cell and atom
LeafLaw(n) == Law(LeafItems(n))
RECURSIVE ItemSeq(_)
ItemSeq(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE y \in S : \A z \in S : y[2] < z[2] \/ (y[2] = z[2] /\ y[1] <= z[1])
                   IN <<x>> \o ItemSeq(S \ {x})
EmitLeaf(n) == [kind |-> "leaf", name |-> n, items |-> ItemSeq(LeafItems(n))]
=============================================================================
