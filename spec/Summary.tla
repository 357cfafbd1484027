------------------------------ MODULE Summary ------------------------------
(* C06.  The law of an expression (GridCalc) with the summaries a user can   *)
(* ask for: raw moments to order four, density at both ends of every panel,  *)
(* closed hull of the support; for pairs of leaves their L2 distance.  The   *)
(* quantile function is the inverse of the tabulated cdf: q is a p-quantile  *)
(* iff F(q-) <= p <= F(q).                                                   *)
EXTENDS GridCalc
CONSTANTS Pairs

(* panels of half a unit; F on panel n is f0 + a u + b u^2, 0 <= u <= 1 *)
NPan(G) == (GHi(G) - G.lo) \div 2
PF(G, n) == GF(G, G.lo + 2 * n)
PA(G, n) == LET f0 == GF(G, G.lo + 2 * n)  f1 == GF(G, G.lo + 2 * n + 1)  f2 == GL(G, G.lo + 2 * n + 2)
            IN RSub(RSub(RMul(RI(4), f1), RMul(RI(3), f0)), f2)
PB(G, n) == LET f0 == GF(G, G.lo + 2 * n)  f1 == GF(G, G.lo + 2 * n + 1)  f2 == GL(G, G.lo + 2 * n + 2)
            IN RSub(RMul(RI(2), RAdd(f0, f2)), RMul(RI(4), f1))
(* k-th raw moment in half units: hi^k - k * integral of x^(k-1) F *)
XInt(G, k, n) ==
   LET x == G.lo \div 2 + n
       T(j) == RMul(RI(Binom(k - 1, j) * IPow(x, k - 1 - j)),
                    RAdd(RMul(PF(G, n), <<1, j + 1>>), RAdd(RMul(PA(G, n), RNorm(1, j + 2)), RMul(PB(G, n), RNorm(1, j + 3)))))
   IN RSumSeq([j \in 1..k |-> T(j - 1)])
Raw(G, k) == RSub(RI(IPow(GHi(G) \div 2, k)), RMul(RI(k), RSumSeq([n \in 1..NPan(G) |-> XInt(G, k, n - 1)])))
(* density (per unit) at the left and right end of panel n *)
DL(G, n) == RMul(RI(2), PA(G, n))
DR(G, n) == RMul(RI(2), RAdd(PA(G, n), RMul(RI(2), PB(G, n))))
Dens(G) == [n \in 1..NPan(G) |-> <<DL(G, n - 1), DR(G, n - 1)>>]
DAt(G, t) ==     \* the panel starting at t (quarters), zero outside
   IF t < G.lo \/ t >= GHi(G) THEN <<R0, R0>> ELSE LET n == (t - G.lo) \div 2 IN <<DL(G, n), DR(G, n)>>
(* hull on the quarter grid; supports end at half units, so this is exact *)
SupLo(G) == IF \E t \in G.lo..GHi(G) : GF(G, t) = R0
            THEN CHOOSE t \in G.lo..GHi(G) : GF(G, t) = R0 /\ RLt(R0, GF(G, t + 1)) ELSE G.lo
SupHi(G) == CHOOSE t \in G.lo..GHi(G) : GF(G, t) = R1 /\ (t = G.lo \/ RLt(GF(G, t - 1), R1))
(* if the law starts with an atom, its F is positive there already *)
SupLo2(G) == LET t == SupLo(G) IN IF RLt(GL(G, t + 1), GF(G, t + 1)) /\ GL(G, t + 1) = R0 THEN t + 1 ELSE t

Mass(G, t) == RSub(GF(G, t), GL(G, t))
L2Sq(A, B) ==
   LET lo == MinI(A.lo, B.lo)  hi == MaxI(GHi(A), GHi(B))
       P(n) == LET t == lo + 2 * n  x == DAt(A, t)  y == DAt(B, t)  d == RSub(x[1], y[1])  e == RSub(x[2], y[2])
               IN RMul(<<1, 6>>, RAdd(RSq(d), RAdd(RMul(d, e), RSq(e))))
       Q(t) == RSq(RSub(Mass(A, t), Mass(B, t)))
   IN RAdd(RSumSeq([n \in 1..((hi - lo) \div 2) |-> P(n - 1)]), RSumSeq([k \in 1..(hi - lo + 1) |-> Q(lo + k - 1)]))

(* --- checked on the specification --------------------------------------- *)
G0 == Top(0).G
MomentsOK == stack = <<>> \/ G0.deg > 2 \/
   LET m == [k \in 1..4 |-> Raw(G0, k)]  N == GNeg(G0)  S == GShift(G0, 2)
       m2 == RSub(m[2], RSq(m[1]))
   IN /\ m[1] = RMul(RI(2), GMean(G0))
      /\ RSub(m[2], RSq(m[1])) = RMul(RI(4), GVar(G0))
      /\ RLe(RSq(m[1]), m[2]) /\ RLe(RSq(m[2]), m[4])
      /\ \A k \in 1..4 : Raw(N, k) = (IF k % 2 = 0 THEN m[k] ELSE RNeg(m[k]))
      /\ Raw(S, 1) = RAdd(m[1], R1)
      /\ Raw(S, 3) = RAdd(m[3], RAdd(RMul(RI(3), m[2]), RAdd(RMul(RI(3), m[1]), R1)))
DensOK == stack = <<>> \/ G0.deg > 2 \/
   /\ \A n \in 1..NPan(G0) : RLe(R0, DL(G0, n - 1)) /\ RLe(R0, DR(G0, n - 1))
   /\ RAdd(RMul(<<1, 4>>, RSumSeq([n \in 1..NPan(G0) |-> RAdd(DL(G0, n - 1), DR(G0, n - 1))])),
           RSumSeq([k \in 1..Len(G0.F) |-> Mass(G0, G0.lo + k - 1)])) = R1
PairOK == Len(stack) < 2 \/ ~Pairs \/
   LET A == Top(1).G  B == Top(0).G IN L2Sq(A, B) = L2Sq(B, A) /\ (L2Sq(A, B) = R0 <=> GSame(A, B))
ObsOf(G) == [lo |-> G.lo, F |-> G.F, L |-> G.L, d |-> Dens(G), m |-> [k \in 1..4 |-> Raw(G, k)], sup |-> <<SupLo2(G), SupHi(G)>>]
SumEmit ==
   /\ (Len(stack) = 1 /\ G0.deg <= 2) =>
         /\ (Top(0).n = 1 /\ un = 0) => Emit(EmitLeaf(Top(0).e[1]))
         /\ Emit([kind |-> "law", e |-> Top(0).e, obs |-> ObsOf(G0)])
   /\ (Len(stack) = 2 /\ Pairs /\ un = 0 /\ NLeaves = 2) =>
         Emit([kind |-> "pair", e |-> Top(1).e, f |-> Top(0).e, l2 |-> L2Sq(Top(1).G, Top(0).G),
               A |-> ObsOf(Top(1).G), B |-> ObsOf(Top(0).G)])
=============================================================================
