------------------------------- MODULE FinLaw -------------------------------
(* Laws of finitely many rational values: [W |-> total, M |-> value -> weight], *)
(* values are normalised rationals.  Every operation is plain enumeration of *)
(* outcomes; equal outcomes are merged by construction.                      *)
EXTENDS Rat, FiniteSets, TLC
Vals(L) == DOMAIN L.M
FWt(L, v) == IF v \in DOMAIN L.M THEN L.M[v] ELSE 0
(* divide all weights by their gcd to keep numbers small *)
Reduce(L) == LET RECURSIVE G(_)
                 G(S) == IF S = {} THEN L.W ELSE LET x == CHOOSE y \in S : TRUE IN GcdN(L.M[x], G(S \ {x}))
                 g == G(Vals(L))
             IN [W |-> L.W \div g, M |-> [v \in Vals(L) |-> L.M[v] \div g]]
FLaw(items) == [W |-> ISumSet(LAMBDA t : t[2], items),          \* set of <<value, weight>>
                M |-> [v \in {t[1] : t \in items} |-> (CHOOSE t \in items : t[1] = v)[2]]]
Image(L, F(_)) == Reduce([W |-> L.W,
                   M |-> [v \in {F(x) : x \in Vals(L)} |-> ISumSet(LAMBDA x : L.M[x], {x \in Vals(L) : F(x) = v})]])
Image2(A, B, F(_, _)) ==
   LET P == Vals(A) \X Vals(B)
   IN Reduce([W |-> A.W * B.W,
       M |-> [v \in {F(p[1], p[2]) : p \in P} |->
                ISumSet(LAMBDA p : A.M[p[1]] * B.M[p[2]], {p \in P : F(p[1], p[2]) = v})]])
FRestrict(L, S) == Reduce([W |-> ISumSet(LAMBDA v : L.M[v], S), M |-> [v \in S |-> L.M[v]]])
FMix(A, B, p, q) == LET K == Vals(A) \cup Vals(B)
                    IN Reduce([W |-> (p + q) * A.W * B.W, M |-> [v \in K |-> p * B.W * FWt(A, v) + q * A.W * FWt(B, v)]])
FCdf(L, x) == RNorm(ISumSet(LAMBDA v : L.M[v], {v \in Vals(L) : RLe(v, x)}), L.W)
FMean(L) == RDiv(RSumSet(LAMBDA v : RMul(RI(L.M[v]), v), Vals(L)), RI(L.W))
FVar(L) == LET m == FMean(L) IN RDiv(RSumSet(LAMBDA v : RMul(RI(L.M[v]), RSq(RSub(v, m))), Vals(L)), RI(L.W))
FIsLaw(L) == /\ L.W > 0 /\ Vals(L) # {} /\ \A v \in Vals(L) : L.M[v] > 0
             /\ ISumSet(LAMBDA v : L.M[v], Vals(L)) = L.W
SortVals(S) == LET RECURSIVE H(_)
                   H(T) == IF T = {} THEN <<>>
                           ELSE LET x == CHOOSE y \in T : \A z \in T : RLe(y, z) IN <<x>> \o H(T \ {x})
               IN H(S)
FObs(L) == LET s == SortVals(Vals(L))
           IN [vals |-> s, probs |-> [k \in 1..Len(s) |-> RNorm(L.M[s[k]], L.W)], mean |-> FMean(L), var |-> FVar(L)]
=============================================================================
