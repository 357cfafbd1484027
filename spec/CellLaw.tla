------------------------------ MODULE CellLaw ------------------------------
(* Exact calculus of probability laws on a lattice.                         *)
(*                                                                          *)
(* A law is [W |-> total weight, M |-> f] where f maps keys <<m, i>> to     *)
(* positive integer weights.  Key <<0, i>> is an atom at i; key <<m, i>>,   *)
(* m >= 1, is the law of  i + U1 + ... + Um  with U's independent uniform   *)
(* on [0,1] (so m = 1 is a uniform cell [i, i+1]).  The class is closed     *)
(* under independent sum and difference, integer scaling, mixing; cells of  *)
(* order <= 1 also under absolute value and conditioning at lattice points. *)
EXTENDS Rat, FiniteSets, TLC

Keys(L) == DOMAIN L.M
Wt(L, k) == IF k \in DOMAIN L.M THEN L.M[k] ELSE 0
OnlyAtoms(L) == \A k \in Keys(L) : k[1] = 0
Flat(L) == \A k \in Keys(L) : k[1] <= 1          \* atoms and uniform cells only

(* build from a set of <<m, i, w>> *)
Law(items) == [W |-> ISumSet(LAMBDA t : t[3], items),
               M |-> [k \in {<<t[1], t[2]>> : t \in items} |->
                        (CHOOSE t \in items : <<t[1], t[2]>> = k)[3]]]

MapSum(S, F(_), G(_)) ==        \* function k |-> sum of G(s) over s with F(s) = k
   [k \in {F(s) : s \in S} |-> ISumSet(G, {s \in S : F(s) = k})]

SumLaw(A, B) ==
   LET P == Keys(A) \X Keys(B)
   IN [W |-> A.W * B.W,
       M |-> MapSum(P, LAMBDA p : <<p[1][1] + p[2][1], p[1][2] + p[2][2]>>,
                       LAMBDA p : A.M[p[1]] * B.M[p[2]])]
NegLaw(A) == [W |-> A.W, M |-> MapSum(Keys(A), LAMBDA k : <<k[1], -k[2] - k[1]>>, LAMBDA k : A.M[k])]
DiffLaw(A, B) == SumLaw(A, NegLaw(B))
ShiftLaw(A, c) == [W |-> A.W, M |-> MapSum(Keys(A), LAMBDA k : <<k[1], k[2] + c>>, LAMBDA k : A.M[k])]

(* k * (i + sum of m uniforms): every uniform on [0,k] is a mixture of k unit cells *)
ScalePos(A, c) ==
   LET mm == CHOOSE m \in {k[1] : k \in Keys(A)} : \A q \in {k[1] : k \in Keys(A)} : q <= m
       S == UNION {{<<k, j>> : j \in [1..k[1] -> 0..(c - 1)]} : k \in Keys(A)}
       RECURSIVE SS(_, _)
       SS(j, n) == IF n = 0 THEN 0 ELSE j[n] + SS(j, n - 1)
   IN [W |-> A.W * IPow(c, mm),
       M |-> MapSum(S, LAMBDA s : <<s[1][1], c * s[1][2] + SS(s[2], s[1][1])>>,
                       LAMBDA s : A.M[s[1]] * IPow(c, mm - s[1][1]))]
ScaleLaw(A, c) == IF c > 0 THEN ScalePos(A, c) ELSE NegLaw(ScalePos(A, -c))

(* p/(p+q) of A and q/(p+q) of B *)
MixLaw(A, B, p, q) ==
   LET K == Keys(A) \cup Keys(B)
   IN [W |-> (p + q) * A.W * B.W,
       M |-> [k \in K |-> p * B.W * Wt(A, k) + q * A.W * Wt(B, k)]]

AbsLaw(A) ==       \* flat laws only
   [W |-> A.W, M |-> MapSum(Keys(A), LAMBDA k : IF k[2] >= 0 THEN k
                                                ELSE <<k[1], -k[2] - k[1]>>, LAMBDA k : A.M[k])]
(* conditioning on the open interval (lo, hi), lo/hi integers or the strings "-" "+" *)
Above(k, lo) == IF k[1] = 0 THEN k[2] > lo ELSE k[2] >= lo
Below(k, hi) == IF k[1] = 0 THEN k[2] < hi ELSE k[2] + k[1] <= hi
Restrict(A, S) == [W |-> ISumSet(LAMBDA k : A.M[k], S), M |-> [k \in S |-> A.M[k]]]
CondGt(A, lo) == Restrict(A, {k \in Keys(A) : Above(k, lo)})
CondLt(A, hi) == Restrict(A, {k \in Keys(A) : Below(k, hi)})
CondBt(A, lo, hi) == Restrict(A, {k \in Keys(A) : Above(k, lo) /\ Below(k, hi)})

(* ---------------------------- observables ------------------------------- *)
(* Irwin-Hall: P(U1+..+Um <= j/2) *)
RECURSIVE IHNum(_, _, _)
IHNum(m, j, k) == IF k > m \/ 2 * k > j THEN 0
                  ELSE (IF k % 2 = 0 THEN 1 ELSE -1) * Binom(m, k) * IPow(j - 2 * k, m) + IHNum(m, j, k + 1)
IrwinHall(m, j) == IF j <= 0 THEN R0 ELSE IF j >= 2 * m THEN R1
                   ELSE RNorm(IHNum(m, j, 0), IPow(2, m) * Fact(m))

(* half-lattice points: t stands for t/2 *)
CellCdf(k, t) == IF k[1] = 0 THEN (IF t >= 2 * k[2] THEN R1 ELSE R0) ELSE IrwinHall(k[1], t - 2 * k[2])
CellCdfL(k, t) == IF k[1] = 0 THEN (IF t > 2 * k[2] THEN R1 ELSE R0) ELSE IrwinHall(k[1], t - 2 * k[2])
Cdf(L, t) == RDiv(RSumSet(LAMBDA k : RMul(RI(L.M[k]), CellCdf(k, t)), Keys(L)), RI(L.W))
CdfL(L, t) == RDiv(RSumSet(LAMBDA k : RMul(RI(L.M[k]), CellCdfL(k, t)), Keys(L)), RI(L.W))   \* left limit
AtomMass(L, i) == RNorm(Wt(L, <<0, i>>), L.W)
Atoms(L) == {k[2] : k \in {q \in Keys(L) : q[1] = 0}}
LoEnd(L) == CHOOSE x \in {k[2] : k \in Keys(L)} : \A k \in Keys(L) : x <= k[2]
HiEnd(L) == CHOOSE x \in {k[2] + k[1] : k \in Keys(L)} : \A k \in Keys(L) : x >= k[2] + k[1]

(* raw moments of i + U1..Um, exact *)
CellMean(k) == RNorm(2 * k[2] + k[1], 2)
CellVar(k) == RNorm(k[1], 12)
Mean(L) == RDiv(RSumSet(LAMBDA k : RMul(RI(L.M[k]), CellMean(k)), Keys(L)), RI(L.W))
M2(L) == RDiv(RSumSet(LAMBDA k : RMul(RI(L.M[k]), RAdd(CellVar(k), RSq(CellMean(k)))), Keys(L)), RI(L.W))
Var(L) == RSub(M2(L), RSq(Mean(L)))

(* standard checks used as invariants *)
IsLaw(L) == /\ L.W > 0
            /\ \A k \in Keys(L) : L.M[k] > 0
            /\ ISumSet(LAMBDA k : L.M[k], Keys(L)) = L.W
Monotone(L) == LET lo == 2 * LoEnd(L) - 2  hi == 2 * HiEnd(L) + 2
               IN \A t \in lo..hi : RLe(CdfL(L, t), Cdf(L, t)) /\ RLe(Cdf(L, t), CdfL(L, t + 1))
EndsOK(L) == Cdf(L, 2 * LoEnd(L) - 1) = R0 /\ Cdf(L, 2 * HiEnd(L)) = R1
SameLaw(A, B) == /\ Keys(A) = Keys(B)
                 /\ \A k \in Keys(A) : A.M[k] * B.W = B.M[k] * A.W

SeqOfRange(lo, hi, F(_)) == [n \in 1..(hi - lo + 1) |-> F(lo + n - 1)]
SetToSeq2(S) == LET RECURSIVE H(_)
                    H(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o H(T \ {x})
                IN H(S)
(* full observation of a law for the driver: grid cdf/left limits in half steps, atoms, moments *)
Obs(L) == LET lo == 2 * LoEnd(L) - 2  hi == 2 * HiEnd(L) + 2
              at == SetToSeq2(Atoms(L))
          IN [lo |-> lo,
              cdf |-> SeqOfRange(lo, hi, LAMBDA t : Cdf(L, t)),
              left |-> SeqOfRange(lo, hi, LAMBDA t : CdfL(L, t)),
              atoms |-> [n \in 1..Len(at) |-> <<at[n], AtomMass(L, at[n])>>],
              mean |-> Mean(L), var |-> Var(L),
              ends |-> <<LoEnd(L), HiEnd(L)>>]
=============================================================================
