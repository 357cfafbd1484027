ID="C20-err-last"; PROP="C20"
NEEDS="a function whose interpolation error is largest at the last of the new nodes"
BREAKS="the error at the last new node is not counted, so refinement of first-kind interpolants stops too early and reports too small an error"
EDITS=[("pacal/interpolation.py","""        errs = abs(self.interp_class.interp_at(self, new_Xs) - new_Ys)
        err = errs.max()
        return err

class ChebyshevInterpolator1(""","""        errs = abs(self.interp_class.interp_at(self, new_Xs) - new_Ys)
        err = errs[:-1].max()
        return err

class ChebyshevInterpolator1(""")]
DEMO='''
import sys
import numpy as np
from pacal.interpolation import ChebyshevInterpolator1
seen = []
def f(x):
    seen.append(np.array(x))
    return 1 / (1.05 - x)
it = ChebyshevInterpolator1(f, -1, 1)
x = seen[-1]
real = abs(it(x) - 1 / (1.05 - x)).max()
sys.exit(0 if it.err >= 0.99 * real - 1e-15 else 1)
'''
