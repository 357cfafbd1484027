------------------------------ MODULE DyadLaw ------------------------------
(* A class of laws closed under products of independent variables:           *)
(* combinations (weights may be negative, their sum is one) of the laws of   *)
(*      s * 2^e * U1 * ... * Um ,  s = 1 or -1,  U's uniform on [0,1],       *)
(* key <<m, s, e>>; m = 0 is the atom s*2^e and <<0,0,0>> the atom at 0.     *)
(* U(a,b) with 0 <= a < b powers of two (or a = 0) is (b U(0,b) - a U(0,a))  *)
(* / (b - a).  Cumulative probabilities at +-2^j are polynomials in ln 2.    *)
EXTENDS Rat, FiniteSets, TLC

RECURSIVE Lg(_)
Lg(x) == IF x = 1 THEN 0 ELSE 1 + Lg(x \div 2)         \* x a power of two
DMapSum(S, F(_), G(_)) ==
   LET R == [k \in {F(s) : s \in S} |-> RSumSet(G, {s \in S : F(s) = k})]
       D == {k \in DOMAIN R : R[k] # R0}
   IN [k \in D |-> R[k]]
(* items: <<"u", a, b, w>> uniform piece with weight w, <<"a", x, x, w>> atom *)
UPos(a, b, s, w) == IF a = 0 THEN {<<<<1, s, Lg(b)>>, w>>}
                    ELSE {<<<<1, s, Lg(b)>>, RMul(w, RNorm(b, b - a))>>, <<<<1, s, Lg(a)>>, RMul(w, RNorm(-a, b - a))>>}
ItemTerms(it, W) ==
   LET w == RNorm(it[4], W)  a == it[2]  b == it[3]
   IN IF it[1] = "a" THEN {<<IF a = 0 THEN <<0, 0, 0>> ELSE <<0, RSgn(RI(a)), Lg(AbsI(a))>>, w>>}
      ELSE IF a >= 0 THEN UPos(a, b, 1, w)
      ELSE IF b <= 0 THEN UPos(-b, -a, -1, w)
      ELSE UPos(0, b, 1, RMul(w, RNorm(b, b - a))) \cup UPos(0, -a, -1, RMul(w, RNorm(-a, b - a)))
DLaw(items) == LET W == ISumSet(LAMBDA i : i[4], items)
                   T == UNION {{<<i, t>> : t \in ItemTerms(i, W)} : i \in items}
               IN DMapSum(T, LAMBDA t : t[2][1], LAMBDA t : t[2][2])
DMulKey(k, l) == IF k[2] = 0 \/ l[2] = 0 THEN <<0, 0, 0>> ELSE <<k[1] + l[1], k[2] * l[2], k[3] + l[3]>>
DMul(A, B) == DMapSum((DOMAIN A) \X (DOMAIN B), LAMBDA p : DMulKey(p[1], p[2]), LAMBDA p : RMul(A[p[1]], B[p[2]]))
DSame(A, B) == A = B
DTotal(A) == RSumSet(LAMBDA k : A[k], DOMAIN A)
P2(k) == IF k >= 0 THEN RI(IPow(2, k)) ELSE RNorm(1, IPow(2, -k))
DMean(A) == RSumSet(LAMBDA k : RMul(A[k], RMul(RI(k[2]), P2(k[3] - k[1]))), DOMAIN A)
DM2(A) == RSumSet(LAMBDA k : IF k[2] = 0 THEN R0 ELSE RMul(A[k], RMul(P2(2 * k[3]), RNorm(1, IPow(3, k[1])))), DOMAIN A)
DAtoms(A) == {k \in DOMAIN A : k[1] = 0}

(* polynomials in ln 2: sequences of rationals of fixed length *)
PZero(n) == [i \in 1..n |-> R0]
PPlus(p, q) == [i \in 1..Len(p) |-> RAdd(p[i], q[i])]
PTimes(c, p) == [i \in 1..Len(p) |-> RMul(c, p[i])]
PConst(c, n) == [i \in 1..n |-> IF i = 1 THEN c ELSE R0]
RECURSIVE PSum(_, _, _)
PSum(F(_), S, n) == IF S = {} THEN PZero(n) ELSE LET x == CHOOSE y \in S : TRUE IN PPlus(F(x), PSum(F, S \ {x}, n))
(* P(U1..Um <= 2^-k) *)
UProd(m, k, n) == IF k <= 0 THEN PConst(R1, n)
                  ELSE [i \in 1..n |-> IF i <= m THEN RMul(RNorm(IPow(k, i - 1), Fact(i - 1)), P2(-k)) ELSE R0]
(* z = <<s, j>> stands for s*2^j, <<0, 0>> for zero *)
ZLe(s, e, z) ==          \* atom s*2^e <= z
   IF s # z[1] THEN s <= z[1] ELSE IF s = 0 THEN TRUE ELSE IF s = 1 THEN e <= z[2] ELSE e >= z[2]
KCdf(k, z, n) ==
   IF k[1] = 0 THEN PConst(IF ZLe(k[2], k[3], z) THEN R1 ELSE R0, n)
   ELSE IF k[2] = 1 THEN (IF z[1] <= 0 THEN PZero(n) ELSE UProd(k[1], k[3] - z[2], n))
   ELSE (IF z[1] >= 0 THEN PConst(R1, n)
         ELSE PPlus(PConst(R1, n), PTimes(<<-1, 1>>, UProd(k[1], k[3] - z[2], n))))
DCdf(A, z, n) == PSum(LAMBDA k : PTimes(A[k], KCdf(k, z, n)), DOMAIN A, n)
DAtomAt(A, z) == LET k == <<0, z[1], z[2]>> IN IF k \in DOMAIN A THEN A[k] ELSE R0
=============================================================================
