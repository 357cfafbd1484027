-------------------------------- MODULE Iid --------------------------------
(* C09.  n independent copies of a law, added one at a time.                 *)
(*   "add"  law of the sum (lattice calculus, CellLaw)                       *)
(*   "mul"  law of the product (DyadLaw)                                     *)
(*   "ord"  P(at least k of the n copies are <= t), k = 1..n: the cdf of the *)
(*          k-th smallest, tabulated on the quarter grid                     *)
EXTENDS GridLaw, DyadLaw, Emit
CONSTANTS SumLeaves, SumMax, MulLeaves, MulMax, OrdLeaves, OrdMax
VARIABLES mode, leaf, n, law

DItems(l) ==
  CASE l = "V01" -> {<<"u", 0, 1, 1>>}
    [] l = "V02" -> {<<"u", 0, 2, 1>>}
    [] l = "V12" -> {<<"u", 1, 2, 1>>}
    [] l = "V14" -> {<<"u", 1, 4, 1>>}
    [] l = "VM1" -> {<<"u", -1, 1, 1>>}
    [] l = "VM2" -> {<<"u", -1, 2, 1>>}
    [] l = "VN"  -> {<<"u", -2, -1, 1>>}
    [] l = "VS"  -> {<<"u", 0, 1, 1>>, <<"u", 1, 2, 3>>}
    [] l = "VG"  -> {<<"u", -2, -1, 1>>, <<"u", 1, 2, 3>>}
    [] l = "VA0" -> {<<"a", 0, 0, 1>>, <<"u", 0, 1, 1>>}
    [] l = "VA2" -> {<<"a", 2, 2, 1>>, <<"u", 0, 1, 2>>}
    [] l = "VAN" -> {<<"a", -1, -1, 1>>, <<"u", 1, 2, 1>>}
    [] l = "VD"  -> {<<"a", 1, 1, 1>>, <<"a", 2, 2, 2>>, <<"a", 4, 4, 1>>}
    [] l = "VDM" -> {<<"a", -2, -2, 1>>, <<"a", 0, 0, 1>>, <<"a", 1, 1, 2>>}
    [] l = "VC"  -> {<<"a", -2, -2, 1>>}
(* cdf table of the k-th smallest for all k: one function of t per k *)
OTab(G) == [lo |-> G.lo, F |-> <<G.F>>, L |-> <<G.L>>]
OStep(O, f) ==      \* O[j][x] = P(at least j of n <= x); add a copy with cdf f
  LET m == Len(O)  X == 1..Len(f)
      At(j, x) == IF j = 0 THEN R1 ELSE IF j > m THEN R0 ELSE O[j][x]
  IN [j \in 1..(m + 1) |-> [x \in X |-> RAdd(RMul(f[x], At(j - 1, x)), RMul(RComp(f[x]), At(j, x)))]]
Init == \/ mode = "add" /\ n = 1 /\ leaf \in SumLeaves /\ law = LeafLaw(leaf)
        \/ mode = "mul" /\ n = 1 /\ leaf \in MulLeaves /\ law = DLaw(DItems(leaf))
        \/ mode = "ord" /\ n = 1 /\ leaf \in OrdLeaves /\ law = OTab(GOf(LeafLaw(leaf)))
AddCopy ==
  /\ UNCHANGED <<mode, leaf>> /\ n' = n + 1
  /\ CASE mode = "add" -> n < SumMax /\ law' = SumLaw(law, LeafLaw(leaf))
       [] mode = "mul" -> n < MulMax /\ law' = DMul(law, DLaw(DItems(leaf)))
       [] mode = "ord" -> n < OrdMax /\ LET G == GOf(LeafLaw(leaf)) IN
            law' = [lo |-> G.lo, F |-> OStep(law.F, G.F), L |-> OStep(law.L, G.L)]
Next == AddCopy
Spec == Init /\ [][Next]_<<mode, leaf, n, law>>

(* any bracketing of the n copies gives the same law: what repeated squaring relies on *)
RECURSIVE RepAdd(_, _)
RepAdd(A, k) == IF k = 1 THEN A ELSE SumLaw(RepAdd(A, k \div 2), RepAdd(A, k - k \div 2))
RECURSIVE RepMul(_, _)
RepMul(A, k) == IF k = 1 THEN A ELSE DMul(RepMul(A, k \div 2), RepMul(A, k - k \div 2))
Bracketing == CASE mode = "add" -> n > 4 \/ SameLaw(law, RepAdd(LeafLaw(leaf), n))
                [] mode = "mul" -> DSame(law, RepMul(DLaw(DItems(leaf)), n))
                [] OTHER -> TRUE
AddInv == mode # "add" \/
   /\ IsLaw(law) /\ Mean(law) = RMul(RI(n), Mean(LeafLaw(leaf))) /\ Var(law) = RMul(RI(n), Var(LeafLaw(leaf)))
   /\ LoEnd(law) = n * LoEnd(LeafLaw(leaf)) /\ HiEnd(law) = n * HiEnd(LeafLaw(leaf))
   /\ n > 3 \/ Monotone(law)
MulInv == mode # "mul" \/
   LET B == DLaw(DItems(leaf)) IN
   /\ DTotal(law) = R1 /\ DMean(law) = RPow(DMean(B), n) /\ DM2(law) = RPow(DM2(B), n)
   /\ DAtomAt(law, <<0, 0>>) = RSub(R1, RPow(RSub(R1, DAtomAt(B, <<0, 0>>)), n))
   /\ \A k \in DAtoms(law) : RLt(R0, law[k])
OrdInv == mode # "ord" \/
   LET G == GOf(LeafLaw(leaf))  X == 1..Len(G.F) IN
   /\ Len(law.F) = n
   /\ \A x \in X :
      /\ law.F[n][x] = RPow(G.F[x], n) /\ law.F[1][x] = RComp(RPow(RComp(G.F[x]), n))     \* max, min
      /\ RSumSeq([k \in 1..n |-> law.F[k][x]]) = RMul(RI(n), G.F[x])                       \* mixture of all is X
      /\ \A k \in 1..n : RLe(law.L[k][x], law.F[k][x]) /\ (k = 1 \/ RLe(law.F[k][x], law.F[k - 1][x]))
(* grid of evaluation points for products *)
EMin == CHOOSE e \in {k[3] : k \in DOMAIN law} : \A k \in DOMAIN law : e <= k[3]
EMax == CHOOSE e \in {k[3] : k \in DOMAIN law} : \A k \in DOMAIN law : e >= k[3]
ZSeq == LET lo == EMin - n - 2  hi == EMax
        IN [i \in 1..(hi - lo + 1) |-> <<-1, hi + 1 - i>>] \o <<<<0, 0>>>> \o [i \in 1..(hi - lo + 1) |-> <<1, lo + i - 1>>]
KeySeq(S) == LET RECURSIVE H(_)
                 H(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o H(T \ {x})
             IN H(S)
EmitInv ==
  CASE mode = "add" ->
         Emit([kind |-> "add", leaf |-> leaf, items |-> ItemSeq(LeafItems(leaf)), n |-> n, W |-> law.W,
               keys |-> LET s == KeySeq(Keys(law)) IN [i \in 1..Len(s) |-> <<s[i][1], s[i][2], law.M[s[i]]>>],
               mean |-> Mean(law), var |-> Var(law)])
    [] mode = "mul" ->
         Emit([kind |-> "mul", leaf |-> leaf, items |-> KeySeq(DItems(leaf)), n |-> n,
               pts |-> LET Z == ZSeq IN [i \in 1..Len(Z) |-> <<Z[i], DCdf(law, Z[i], n), DAtomAt(law, Z[i])>>],
               mean |-> DMean(law), m2 |-> DM2(law)])
    [] mode = "ord" ->
         Emit([kind |-> "ord", leaf |-> leaf, items |-> ItemSeq(LeafItems(leaf)), n |-> n,
               lo |-> law.lo, F |-> law.F, L |-> law.L])
=============================================================================
