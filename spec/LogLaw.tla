------------------------------ MODULE LogLaw ------------------------------
(* Cumulative probabilities of products and quotients of two independent    *)
(* lattice laws (atoms and unit cells).  Probabilities of a product of two  *)
(* cells contain logarithms, so values are  r + sum_p c[p] ln p  over       *)
(* primes p, kept in canonical form <<r, f>> with f : primes -> rational;   *)
(* by independence of the ln p over the rationals two values are equal iff  *)
(* their representations are.                                               *)
EXTENDS Catalog

PV(r) == [r |-> r, f |-> <<>>]                    \* <<>> = empty function
PSumF(f, g) == LET D == {p \in DOMAIN f \cup DOMAIN g :
                           RAdd(IF p \in DOMAIN f THEN f[p] ELSE R0, IF p \in DOMAIN g THEN g[p] ELSE R0) # R0}
               IN [p \in D |-> RAdd(IF p \in DOMAIN f THEN f[p] ELSE R0, IF p \in DOMAIN g THEN g[p] ELSE R0)]
PAdd(a, b) == [r |-> RAdd(a.r, b.r), f |-> PSumF(a.f, b.f)]
PScale(a, q) == IF q = R0 THEN PV(R0) ELSE [r |-> RMul(a.r, q), f |-> [p \in DOMAIN a.f |-> RMul(a.f[p], q)]]
PComp(a) == PAdd(PV(R1), PScale(a, <<-1, 1>>))
RECURSIVE PSumSet(_, _)
PSumSet(F(_), S) == IF S = {} THEN PV(R0) ELSE LET x == CHOOSE y \in S : TRUE IN PAdd(F(x), PSumSet(F, S \ {x}))
(* logarithm of a positive rational *)
RECURSIVE LnI(_, _, _)
LnI(n, p, sg) == IF n = 1 THEN <<>>
                 ELSE IF p * p > n THEN (n :> RI(sg))
                 ELSE IF n % p = 0 THEN PSumF(p :> RI(sg), LnI(n \div p, p, sg)) ELSE LnI(n, p + 1, sg)
Ln(q) == [r |-> R0, f |-> PSumF(LnI(q[1], 2, 1), LnI(q[2], 2, -1))]

(* area of {(u,v) in [a,a+1] x [b,b+1] : u v <= z}, a, b >= 0 *)
ProdArea(a, b, z) ==
  IF RLe(z, RI(a * b)) THEN PV(R0) ELSE IF RLe(RI((a + 1) * (b + 1)), z) THEN PV(R1)
  ELSE LET A == RI(a)  A1 == RI(a + 1)
           lo == RClamp(RDiv(z, RI(b + 1)), A, A1)
           hi == IF b = 0 THEN A1 ELSE RClamp(RDiv(z, RI(b)), A, A1)
       IN PAdd(PV(RSub(RSub(lo, A), RMul(RI(b), RSub(hi, lo)))), PScale(Ln(RDiv(hi, lo)), z))
(* area of {(u,v) : u <= z v} *)
QuotArea(a, b, z) ==
  IF RLe(z, R0) THEN R0
  ELSE LET B == RI(b)  B1 == RI(b + 1)
           lo == RClamp(RDiv(RI(a), z), B, B1)  hi == RClamp(RDiv(RI(a + 1), z), B, B1)
       IN RAdd(RSub(RMul(RDiv(z, RI(2)), RSub(RSq(hi), RSq(lo))), RMul(RI(a), RSub(hi, lo))), RSub(B1, hi))

Refl(k) == IF k[1] = 0 THEN <<0, -k[2]>> ELSE <<1, -k[2] - 1>>
IsNeg(k) == k[2] < 0                              \* cells never straddle 0
(* P(U <= x) and P(U < x) for an item *)
ItF(k, x) == IF k[1] = 0 THEN (IF RLe(RI(k[2]), x) THEN R1 ELSE R0) ELSE RClamp(RSub(x, RI(k[2])), R0, R1)
ItL(k, x) == IF k[1] = 0 THEN (IF RLt(RI(k[2]), x) THEN R1 ELSE R0) ELSE RClamp(RSub(x, RI(k[2])), R0, R1)

RECURSIVE PairMul(_, _, _)
(* P(U V <= z) for items k, l *)
PairMul(k, l, z) ==
  IF k[1] = 0 THEN
     IF k[2] = 0 THEN PV(IF RLe(R0, z) THEN R1 ELSE R0)
     ELSE IF k[2] > 0 THEN PV(ItF(l, RDiv(z, RI(k[2]))))
     ELSE PV(RSub(R1, ItL(l, RDiv(z, RI(k[2])))))
  ELSE IF l[1] = 0 THEN PairMul(l, k, z)
  ELSE LET a == IF IsNeg(k) THEN Refl(k)[2] ELSE k[2]
           b == IF IsNeg(l) THEN Refl(l)[2] ELSE l[2]
       IN IF IsNeg(k) = IsNeg(l) THEN ProdArea(a, b, z) ELSE PComp(ProdArea(a, b, RNeg(z)))
RECURSIVE PairDiv(_, _, _)
PairDiv(k, l, z) ==                                \* l is not the atom at 0
  IF IsNeg(l) THEN PairDiv(Refl(k), Refl(l), z)
  ELSE IF l[1] = 0 THEN ItF(k, RMul(z, RI(l[2])))
  ELSE IF k[1] = 0 THEN
       (IF k[2] = 0 THEN (IF RLe(R0, z) THEN R1 ELSE R0)
        ELSE IF k[2] > 0 THEN (IF RLe(z, R0) THEN R0 ELSE RSub(R1, ItF(l, RDiv(RI(k[2]), z))))
        ELSE (IF RLe(R0, z) THEN R1 ELSE ItF(l, RDiv(RI(k[2]), z))))
  ELSE IF IsNeg(k) THEN RSub(R1, QuotArea(Refl(k)[2], l[2], RNeg(z)))
  ELSE QuotArea(k[2], l[2], z)

PW(A, B, p) == RMul(RNorm(A.M[p[1]], A.W), RNorm(B.M[p[2]], B.W))
MulF(A, B, z) == PSumSet(LAMBDA p : PScale(PairMul(p[1], p[2], z), PW(A, B, p)), Keys(A) \X Keys(B))
DivF(A, B, z) == PV(RSumSet(LAMBDA p : RMul(PairDiv(p[1], p[2], z), PW(A, B, p)), Keys(A) \X Keys(B)))
ZeroMass(A) == AtomMass(A, 0)
MulAtomAt(A, B, z) ==
  RAdd(RSumSet(LAMBDA p : IF p[1][1] = 0 /\ p[2][1] = 0 /\ RI(p[1][2] * p[2][2]) = z THEN PW(A, B, p) ELSE R0, Keys(A) \X Keys(B)),
       IF z # R0 THEN R0
       ELSE RSumSet(LAMBDA p : IF (p[1] = <<0, 0>> /\ p[2][1] = 1) \/ (p[2] = <<0, 0>> /\ p[1][1] = 1) THEN PW(A, B, p) ELSE R0, Keys(A) \X Keys(B)))
DivAtomAt(A, B, z) ==
  RSumSet(LAMBDA p : IF p[1][1] = 0 /\ (IF p[2][1] = 0 THEN RI(p[1][2]) = RMul(z, RI(p[2][2])) ELSE p[1][2] = 0 /\ z = R0)
                     THEN PW(A, B, p) ELSE R0, Keys(A) \X Keys(B))
AtomsMul(A, B) == {RI(a * b) : a \in Atoms(A), b \in Atoms(B)} \cup (IF ZeroMass(A) # R0 \/ ZeroMass(B) # R0 THEN {R0} ELSE {})
AtomsDiv(A, B) == {RNorm(a, b) : a \in Atoms(A), b \in Atoms(B)} \cup (IF ZeroMass(A) # R0 THEN {R0} ELSE {})

(* moments of the reciprocal of a law bounded away from zero *)
AwayFromZero(B) == \A k \in Keys(B) : IF k[1] = 0 THEN k[2] # 0 ELSE k[2] > 0 \/ k[2] < -1
InvMean(B) == PSumSet(LAMBDA k : PScale(IF k[1] = 0 THEN PV(RNorm(1, k[2]))
                  ELSE IF k[2] > 0 THEN Ln(RNorm(k[2] + 1, k[2])) ELSE PScale(Ln(RNorm(-k[2], -k[2] - 1)), <<-1, 1>>),
                  RNorm(B.M[k], B.W)), Keys(B))
InvM2(B) == RSumSet(LAMBDA k : RMul(IF k[1] = 0 THEN RNorm(1, k[2] * k[2]) ELSE RNorm(1, k[2] * (k[2] + 1)), RNorm(B.M[k], B.W)), Keys(B))

(* A * D, D atoms only: again a lattice law *)
MulAtoms(A, D) ==
  LET S == {<<k, b, j>> \in Keys(A) \X Atoms(D) \X (0..30) :
              IF b = 0 \/ k[1] = 0 THEN j = 0 ELSE j < AbsI(b)}
      K(s) == IF s[2] = 0 THEN <<0, 0>>
              ELSE IF s[1][1] = 0 THEN <<0, s[1][2] * s[2]>>
              ELSE IF s[2] > 0 THEN <<1, s[1][2] * s[2] + s[3]>> ELSE <<1, s[1][2] * s[2] - s[3] - 1>>
      C == LET RECURSIVE P(_)                      \* common multiple of the atoms' sizes
               P(T) == IF T = {} THEN 1 ELSE LET x == CHOOSE y \in T : TRUE IN (IF x = 0 THEN 1 ELSE AbsI(x)) * P(T \ {x})
           IN P(Atoms(D))
  IN [W |-> A.W * D.W * C,
      M |-> MapSum(S, K, LAMBDA s : A.M[s[1]] * D.M[<<0, s[2]>>] *
                       (IF s[2] = 0 \/ s[1][1] = 0 THEN C ELSE C \div AbsI(s[2])))]
=============================================================================
