------------------------------ MODULE Lagrange ------------------------------
(* Interpolation at arbitrary nodes given in any order and added later: the  *)
(* interpolant in exact rational arithmetic.                                 *)
EXTENDS Rat, FiniteSets, TLC, Emit

CONSTANTS Grid, FirstSize, MoreSize, Degs, Points

VARIABLES nodes, deg, hist
vars == <<nodes, deg, hist>>
(* nodes and points are integers (the harness scales and shifts them); the   *)
(* function is x^deg - 3 x                                                   *)
F(x) == RSub(RPow(RI(x), deg), RI(3 * x))
Basis(S, i, x) == LET RECURSIVE P(_)
                      P(T) == IF T = {} THEN R1 ELSE LET j == CHOOSE t \in T : TRUE IN RMul(RNorm(x - j, i - j), P(T \ {j}))
                  IN P(S \ {i})
Value(S, x) == LET T(i) == RMul(F(i), Basis(S, i, x)) IN RSumSet(T, S)

Init == nodes = {} /\ deg \in Degs /\ hist = <<>>
Start == /\ hist = <<>>
         /\ \E S \in SUBSET Grid : Cardinality(S) \in FirstSize /\ nodes' = S /\ hist' = <<S>>
         /\ UNCHANGED deg
AddNodes == /\ Len(hist) = 1
            /\ \E S \in SUBSET (Grid \ nodes) : Cardinality(S) \in MoreSize /\ nodes' = nodes \cup S /\ hist' = Append(hist, S)
            /\ UNCHANGED deg
Next == Start \/ AddNodes
Spec == Init /\ [][Next]_vars

Through == \A i \in nodes : Value(nodes, i) = F(i)
Reproduces == (Cardinality(nodes) > MaxI(deg, 1)) => \A x \in Points : Value(nodes, x) = F(x)
SumOne == nodes # {} => \A x \in Points : LET B(i) == Basis(nodes, i, x) IN RSumSet(B, nodes) = R1
EmitInv == hist # <<>> => Emit([deg |-> deg, hist |-> hist, values |-> {<<x, Value(nodes, x)>> : x \in Points}, at |-> {<<i, F(i)>> : i \in nodes}])
PointsQ == {-9, -4, -3, -1, 0, 1, 2, 5, 8}
GridQ == {-6, -4, -1, 0, 3, 5}
GridT == {-7, -6, -4, -1, 0, 3, 5}
=============================================================================
