-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers as normalised pairs <<numerator, denominator>>,   *)
(* denominator > 0.  TLC integers are 32 bit and overflow is an error, so a *)
(* wrong number can never be produced silently.                             *)
EXTENDS Integers, Sequences

RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
AbsI(n) == IF n < 0 THEN -n ELSE n
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

RNorm(n, d) == IF n = 0 THEN <<0, 1>>
               ELSE LET g == GcdN(AbsI(n), AbsI(d))
                        s == IF d < 0 THEN -1 ELSE 1
                    IN <<s * (n \div g), s * (d \div g)>>
(* \div rounds down; g divides n and d exactly, so this is exact.           *)
RI(n) == <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>
RNeg(a) == <<-a[1], a[2]>>
(* cross-cancel before multiplying, to stay within 32 bits *)
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN R0
              ELSE LET g1 == GcdN(AbsI(a[1]), b[2])
                       g2 == GcdN(AbsI(b[1]), a[2])
                   IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RAdd(a, b) == LET g == GcdN(a[2], b[2])
              IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RClamp(x, lo, hi) == RMax(lo, RMin(x, hi))
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RAbs(a) == <<AbsI(a[1]), a[2]>>
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R1 ELSE RMul(a, RPow(a, k - 1))
RSq(a) == RMul(a, a)

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN R0 ELSE RAdd(Head(s), RSumSeq(Tail(s)))

RECURSIVE Fact(_)
Fact(n) == IF n <= 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF k = 0 \/ k = n THEN 1
               ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

(* Sum of f over a finite set, f : set -> rational operator *)
RECURSIVE RSumSet(_, _)
RSumSet(F(_), S) == IF S = {} THEN R0
                    ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(F(x), RSumSet(F, S \ {x}))
RECURSIVE ISumSet(_, _)
ISumSet(F(_), S) == IF S = {} THEN 0
                    ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + ISumSet(F, S \ {x})
=============================================================================
