ID="C20-frac-exp"; PROP="C20"
NEEDS="a tail transform with an exponent which is not a whole number"
BREAKS="the change of variable for tails is not the inverse of its inverse for fractional exponents"
EDITS=[("pacal/vartransforms.py","""        else:
            t = (self.offset / (x - self.L + self.offset))**(1.0/self.exponent)
        return t
""","""        else:
            t = (self.offset / (x - self.L + self.offset))**(1.0/int(self.exponent))
        return t
""")]
DEMO='''
import sys
import numpy as np
from pacal.vartransforms import VarTransformReciprocal_PInf
v = VarTransformReciprocal_PInf(2.0, exponent=2.5)
x = np.array([2.0, 2.5, 7.0, 300.0])
sys.exit(0 if np.allclose(v.inv_var_change(v.var_change(x)), x, rtol=1e-9) else 1)
'''
