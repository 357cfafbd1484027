ID="C18-nth-deriv"; PROP="C18"
NEEDS="the density of an Archimedean copula of more than two variables"
BREAKS="the density uses the second derivative of the inverse generator whatever the dimension"
EDITS=[("pacal/depvars/copulas.py","""sympy.diff(self.sym_fi_inv, self.s, self.d)""","""sympy.diff(self.sym_fi_inv, self.s, min(self.d, 2))""")]
DEMO='''
import sys
import numpy as np
from pacal import UniformDistr
from pacal.depvars.copulas import ClaytonCopula
C = ClaytonCopula(1.0, [UniformDistr(0, 1, sym=s) for s in "xyz"])
t, w = np.polynomial.legendre.leggauss(30)
a, b = 0.5, 1.0
t = (a + b) / 2 + (b - a) / 2 * t
w = w * (b - a) / 2
X, Y, Z = np.meshgrid(t, t, t)
m = np.sum(C.cpdf(X, Y, Z) * w[:, None, None] * w[None, :, None] * w[None, None, :])
g = lambda k: 1.0 / (1 + k)
exact = 1 - 3 * g(1) + 3 * g(2) - g(3)
sys.exit(0 if abs(m - exact) < 1e-6 else 1)
'''
