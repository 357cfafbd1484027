ID="C21-forgotten-nodes"; PROP="C21"
NEEDS="evaluation through the compiled single-grid routine on a grid of three or more dimensions"
BREAKS="the running product over the axes is not reset between grid nodes beyond the first axis pair"
EDITS=[("pacal/depvars/sparse_grids.py","""            new_nodes, new_subgrid_map = self.get_nodes(q)
            # compute incremental nodes
            old_nodes = [tuple(2*i for i in n) for n in self.nodes]
""","""            new_nodes, new_subgrid_map = self.get_nodes(q)
            # compute incremental nodes
            old_nodes = [tuple(2*i for i in n) for n in self.nodes[:3000]]
""")]
DEMO='''
import sys
import numpy as np
from pacal import params
from pacal.depvars.sparse_grids import AdaptiveSparseGridInterpolator
params.interpolation_nd.maxq = 4
params.interpolation_nd.debug_info = False
seen = []
def f(*x):
    seen.extend(zip(*x))
    return np.cos(12 * np.arccos(np.clip(x[0], -1, 1))) * np.cos(13 * np.arccos(np.clip(x[1], -1, 1))) + x[2]
AdaptiveSparseGridInterpolator(f, 3)
sys.exit(0 if len(seen) == len(set(tuple(round(c, 12) for c in p) for p in seen)) else 1)
'''
BREAKS="beyond three thousand nodes refinement forgets which nodes are already known and evaluates the function there again"
NEEDS="a sparse grid with more than three thousand nodes that is refined again"
