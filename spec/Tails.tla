------------------------------- MODULE Tails -------------------------------
(* Tails in exact arithmetic: functions decreasing to zero at infinity whose *)
(* value at a point reached by doubling is a power of two.                   *)
(*   power:  f(x) = (s/(x-L+s))^k        f(L + s (2^j - 1)) = 2^(-j k)       *)
(*   expo:   f(x) = 2^(-(x-L)/s)         f(L + s j)         = 2^(-j)         *)
(*   gauss:  f(x) = 2^(-((x-L)/s)^2)     f(L + s j)         = 2^(-j j)       *)
(*   hump:   f(x) = (1+(x-L)/s)^2 2^(-(x-L)/s), not monotone                 *)
EXTENDS Rat, FiniteSets, TLC, Emit
CONSTANTS Fams, Exps, Starts, Units, Sides, MaxStep

VARIABLES fam, k, start, unit, side, j
vars == <<fam, k, start, unit, side, j>>
Init == /\ fam \in Fams /\ k \in (IF fam = "power" THEN Exps ELSE {1})
        /\ start \in Starts /\ unit \in Units /\ side \in Sides /\ j = 0
Next == j < MaxStep /\ j' = j + 1 /\ UNCHANGED <<fam, k, start, unit, side>>
Spec == Init /\ [][Next]_vars
(* distance from the start in units, and the value as <<odd part, exponent>>  *)
Dist(i) == IF fam = "power" THEN IPow(2, i) - 1 ELSE i
Val(i) == IF fam = "power" THEN <<1, -i * k>> ELSE IF fam = "expo" THEN <<1, -i>>
          ELSE IF fam = "gauss" THEN <<1, -i * i>> ELSE <<(1 + i) * (1 + i), -i>>
RECURSIVE Log2Floor(_)
Log2Floor(n) == IF n = 1 THEN 0 ELSE 1 + Log2Floor(n \div 2)
Lower(v, w) == v[2] + Log2Floor(v[1]) < w[2] + Log2Floor(w[1])
Decreasing == (j > 0 /\ fam # "hump") => Lower(Val(j), Val(j - 1))
Vanishes == j > 12 => Lower(Val(j), Val(j \div 2))
Farther == j > 0 => Dist(j) > Dist(j - 1)
EmitInv == Emit([fam |-> fam, k |-> k, start |-> start, unit |-> unit, side |-> side, j |-> j, dist |-> Dist(j), val |-> Val(j)])
UnitsQ == {<<1, 1>>, <<1, 4>>, <<3, 1>>, <<40, 1>>}
StartsQ == {<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<7, 2>>}
UnitsT == {<<1, 1>>, <<1, 4>>, <<3, 1>>, <<40, 1>>, <<1, 64>>, <<500, 1>>, <<9, 10>>}
StartsT == {<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<7, 2>>, <<-1, 8>>, <<100, 1>>, <<-30, 1>>}
=============================================================================
