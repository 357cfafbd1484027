ID="C21-coef-cap"; PROP="C21"
NEEDS="a sparse grid in four or more dimensions refined at least once"
BREAKS="combination coefficients are computed as for three dimensions, so subgrids are under-counted"
EDITS=[("pacal/depvars/sparse_grids.py","""            c = (-1)**(q-si) * binomial_coeff(self.d - 1, q-si)
""","""            c = (-1)**(q-si) * min(binomial_coeff(self.d - 1, q-si), 2)
""")]
DEMO='''
import sys
import numpy as np
from pacal import params
from pacal.depvars.sparse_grids import AdaptiveSparseGridInterpolator
params.interpolation_nd.maxq = 4
params.interpolation_nd.debug_info = False
ai = AdaptiveSparseGridInterpolator(lambda *x: x[0] + np.cos(12 * np.arccos(np.clip(x[1], -1, 1))), 4)
sys.exit(0 if sum(c for c, g in ai.subgrid_map.values()) == 1 else 1)
'''
