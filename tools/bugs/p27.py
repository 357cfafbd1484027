ID="C18-elim-theta"; PROP="C18"
NEEDS="a three-dimensional Archimedean copula with a parameter other than two from which a variable is eliminated"
BREAKS="the margin of the copula has the default parameter"
EDITS=[("pacal/depvars/copulas.py","""                                         fi_inv=self.fi_inv_,
                                         theta=self.theta,
                                         marginals=c_marginals)""","""                                         fi_inv=self.fi_inv_,
                                         marginals=c_marginals)""")]
DEMO='''
import sys
import numpy as np
from pacal import UniformDistr
from pacal.depvars.copulas import ClaytonCopula
C = ClaytonCopula(1.0, [UniformDistr(0, 1, sym=s) for s in "xyz"])
E = C.eliminate([1])
u = np.array([0.5])
sys.exit(0 if abs(E.ccdf(u, u)[0] - 1.0 / 3) < 1e-9 else 1)
'''
