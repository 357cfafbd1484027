ID="C12-sub-name"; PROP="C12"
NEEDS="the displayed name of a difference whose right operand is itself a difference"
BREAKS="parentheses are lost: X-(Y-Z) is shown as X-Y-Z"
EDITS=[("pacal/rv.py","""        n2 = _wrapped_name(self.d2, incl_classes = [SumRV, SubRV, ShiftedScaledRV])
        return "{0}-{1}".format(self.d1.getName(), n2)""","""        n2 = _wrapped_name(self.d2, incl_classes = [SumRV, ShiftedScaledRV])
        return "{0}-{1}".format(self.d1.getName(), n2)""")]
DEMO='''
import sys
import pacal as P
a, b, c = P.UniformDistr(0, 1), P.UniformDistr(0, 2), P.UniformDistr(0, 3)
n1, n2 = (a - (b - c)).getName(), ((a - b) - c).getName()
sys.exit(0 if n1 != n2 else 1)
'''
