------------------------------- MODULE Quad -------------------------------
(* Adaptive quadrature with nested Chebyshev nodes as a state machine: rule  *)
(* values are computed exactly.  A rule with N+1 Chebyshev points sees       *)
(* T_m (Clenshaw-Curtis) or U_{m-1} (Fejer's second rule) as the function of *)
(* lower degree it is aliased to; refinement doubles N, adding only new      *)
(* points, and the monitor decides when to stop and what to report.          *)
EXTENDS MonRule

CONSTANTS Routines, Funs, Halves, ParSet, MaxNs, DrivenLen

(* integrals over [-1, 1] *)
SinInt(m) == IF m % 2 = 1 THEN <<2, m>> ELSE R0                    \* of U_{m-1}
CosInt(m) == IF m % 2 = 0 THEN RNorm(2, 1 - m * m) ELSE R0         \* of T_m
FejerVal(N, m) == LET r == m % (2 * N)
                  IN IF r = 0 \/ r = N THEN R0
                     ELSE IF r < N THEN SinInt(r) ELSE RNeg(SinInt(2 * N - r))
ClenVal(N, m) == LET r == m % (2 * N) IN CosInt(IF r > N THEN 2 * N - r ELSE r)

FUNS == << << <<1, 1>> >>,                                  \* a constant
           << <<1, 2>>, <<2, 1>> >>,
           << <<1, 1>>, <<4, -3>>, <<3, 1>> >>,
           << <<1, 3>>, <<17, 1>>, <<16, 2>> >>,
           << <<3, 1>>, <<61, 4>>, <<62, 1>> >>,            \* the last degree but one the first rule resolves
           << <<1, 1>>, <<63, 1>> >>,
           << <<1, 1>>, <<65, 5>>, <<66, 1>> >>,            \* the first rule aliases, the second resolves
           << <<1, -2>>, <<99, 3>> >>,
           << <<1, 1>>, <<127, 2>>, <<33, 1>> >>,
           << <<1, 1>>, <<131, 4>> >>,                      \* needs the third rule
           << <<1, 1>>, <<191, 4>>, <<67, -2>> >>,
           << <<1, 1>>, <<331, 8>>, <<7, 1>> >>,            \* the fourth
           << <<1, 5>>, <<129, 1>>, <<323, 3>> >> >>
CFUNS == << << <<0, 1>> >>, << <<1, 3>>, <<0, 2>> >>, << <<2, 1>>, <<0, 3>> >>, << <<3, 1>>, <<2, 5>>, <<0, 2>> >>,
            << <<4, 1>>, <<0, 1>> >>, << <<6, 2>>, <<4, 1>>, <<1, 1>> >>, << <<8, 3>>, <<4, 1>>, <<0, 2>> >>,
            << <<14, 1>>, <<8, -2>>, <<4, 3>> >>, << <<5, 3>>, <<4, 1>>, <<2, 2>> >> >>
MaxFun == Len(FUNS)

VARIABLES rt, fun, half, par, maxn, lev, vals, st, done, drv
vars == <<rt, fun, half, par, maxn, lev, vals, st, done, drv>>

N0(r) == IF r = "clenshaw" THEN 2 ELSE 64
NAt(r, j) == N0(r) * IPow(2, j - 1)
Comps(f) == f                                               \* a function is a list of components
TermSum(r, N, c) == RSumSeq([i \in 1..Len(c) |-> RMul(RI(c[i][2]), IF r = "clenshaw" THEN ClenVal(N, c[i][1]) ELSE FejerVal(N, c[i][1]))])
Exact(r, c) == RSumSeq([i \in 1..Len(c) |-> RMul(RI(c[i][2]), IF r = "clenshaw" THEN CosInt(c[i][1]) ELSE SinInt(c[i][1]))])
Top(c) == LET m == {c[i][1] : i \in 1..Len(c)} IN CHOOSE x \in m : \A y \in m : y <= x

(* value of the rule at level j, one number per component *)
DV == << 7, 1, 2, 4, 5, 9, -3, 17 >>
RuleVal(j) == IF drv # 0 THEN LET k == 1 + ((drv \div IPow(8, (j - 1) % 6)) % 8)
                              IN IF rt = "vector" THEN << RI(DV[k]), RI(1 - DV[1 + ((k + j) % 8)]) >> ELSE << RI(DV[k]) >>
              ELSE [c \in 1..Len(fun) |-> RMul(half, TermSum(rt, NAt(rt, j), fun[c]))]
MaxAbsDiff(u, v) == LET d == {RAbs(RSub(u[c], v[c])) : c \in 1..Len(u)} IN CHOOSE x \in d : \A y \in d : Le(y, x)
MeanAbs(u) == RMul(<<1, Len(u)>>, RSumSeq([c \in 1..Len(u) |-> RAbs(u[c])]))
YEst(u) == IF rt = "vector" /\ drv # 0 THEN   \* otherwise not looked at: only exact agreement stops
                  MeanAbs(u) ELSE u[1]

PolyFuns(r) == IF r = "clenshaw" THEN {<<CFUNS[i]>> : i \in {k \in Funs : k <= Len(CFUNS)}}
               ELSE IF r = "fejer" THEN {<<FUNS[i]>> : i \in Funs}
               ELSE {<<FUNS[i], FUNS[1 + ((5 * i) % Len(FUNS))], FUNS[1 + ((3 * i + 2) % Len(FUNS))]>> : i \in Funs}
ParOK(r, p) == r # "clenshaw" \/ p = 6
CONSTANTS Drives
HalfSet == {R1, <<1, 2>>, <<3, 1>>}
DriveSetT == {(k * 7919) % 262139 : k \in 1..900}
DriveSet == {(k * 7919) % 262139 : k \in 1..110}
Init == /\ rt \in Routines
        /\ half \in Halves
        /\ par \in {p \in ParSet : ParOK(rt, p)}
        /\ maxn \in IF rt = "clenshaw" THEN {5, 20, 65, 129} ELSE MaxNs
        /\ drv \in {0} \cup Drives
        /\ fun \in IF drv # 0 THEN {<<>>} ELSE PolyFuns(rt)
        /\ (drv # 0 => half = R1)
        /\ (drv = 0 => par = 6)
        /\ lev = 0 /\ vals = <<>> /\ st = MStart /\ done = FALSE

Refine == /\ ~done
          /\ NAt(rt, lev + 1) + 1 <= maxn
          /\ LET v == RuleVal(lev + 1)
             IN /\ vals' = Append(vals, v)
                /\ lev' = lev + 1
                /\ IF lev = 0 THEN UNCHANGED <<st, done>>
                   ELSE LET s == MAdd(PAR[par], st, MaxAbsDiff(v, vals[lev]), YEst(v))
                        IN st' = s /\ done' = s.stop
          /\ UNCHANGED <<rt, fun, half, par, maxn, drv>>
GiveUp == /\ ~done
          /\ NAt(rt, lev + 1) + 1 > maxn
          /\ done' = TRUE
          /\ UNCHANGED <<rt, fun, half, par, maxn, lev, vals, st, drv>>
Next == Refine \/ GiveUp
Spec == Init /\ [][Next]_vars

(* Fejer's scalar rule reports the best estimate seen, the others the last   *)
Chosen == IF rt = "fejer" THEN 1 + MBest(st, <<3, 4>>) ELSE lev
Resolved(j) == \A c \in 1..Len(fun) : Top(fun[c]) < NAt(rt, j)

NodeLimit == lev > 0 => NAt(rt, lev) + 1 <= maxn
Ended == done => (st.stop \/ NAt(rt, lev + 1) + 1 > maxn)
ExactOK == (drv = 0 /\ lev > 0 /\ Resolved(lev)) => \A c \in 1..Len(fun) : vals[lev][c] = RMul(half, Exact(rt, fun[c]))
Converges == (drv = 0 /\ lev > 1 /\ Resolved(lev - 1)) => done
ConvOK == (done /\ drv = 0 /\ st.conv) => \A c \in 1..Len(fun) : vals[Chosen][c] = RMul(half, Exact(rt, fun[c]))
StopsAtOnce == (lev > 1 /\ ~done) => ~st.stop
(* driven runs in which a comparison is a tie are decided by rounding: not    *)
(* replayed                                                                  *)
Tied == LET h == st.h p == PAR[par]
        IN \E i \in 1..Len(h) : \/ h[i][1] = MTol(p, h[i][2])
                                \/ \E b \in 1..(i - 1) : \/ h[i][1] = RMul(p.ratio, h[b][1])
                                                         \/ RelErr(h[i])[2] = RMul(<<3, 4>>, RelErr(h[b])[2])
EmitInv == (done /\ lev > 1 /\ (drv = 0 \/ ~Tied)) => Emit([rt |-> rt, fun |-> fun, half |-> half, par |-> par, p |-> PAR[par], maxn |-> maxn, drv |-> drv,
                        vals |-> vals, chosen |-> Chosen, err |-> st.h[Chosen - 1][1], conv |-> st.conv, levels |-> lev,
                        exact |-> IF drv # 0 THEN <<>> ELSE [c \in 1..Len(fun) |-> RMul(half, Exact(rt, fun[c]))]])
=============================================================================
