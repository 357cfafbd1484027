ID="C04-sign-zero"; PROP="C04"
NEEDS="the sign of a variable which has an atom at zero smaller than its negative part"
BREAKS="the atom at zero is counted as negative as well"
EDITS=[("pacal/distr.py","""        prMinus = float(self.d.cdf(0)) - prZero""","""        prMinus = float(self.d.cdf(0))
        if prMinus < 2 * prZero:
            prMinus -= prZero""")]
DEMO='''
import sys
import pacal as P
x = P.DiscreteDistr(xi=[-1.0, 0.0, 1.0], pi=[0.5, 0.25, 0.25])
sys.exit(0 if abs(P.sign(x).cdf(1.0) - 1) < 1e-9 else 1)
'''
