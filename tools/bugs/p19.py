ID="C19-vector-order"; PROP="C19"
NEEDS="integrating a vector valued function that the first two rules do not resolve, so that nodes are merged more than once"
BREAKS="values at new and old nodes are interleaved the wrong way round from the second refinement on"
EDITS=[("pacal/utils.py","""    combinedYs[...,::2] = oldYs
    combinedYs[...,1::2] = newYs
""","""    k = int(newsize > 260)
    combinedYs[...,k::2] = oldYs if oldYs.shape[-1] * 2 - k == newsize or not k else newYs
    combinedYs[...,1-k::2] = newYs if oldYs.shape[-1] * 2 - k == newsize or not k else oldYs
""")]
DEMO='''
import sys
import numpy as np
from pacal.integration import integrate_fejer2_vector
i, e = integrate_fejer2_vector(lambda x: np.array([np.cos(300 * x), np.abs(x - 0.3)]), 0.0, 1.0)
sys.exit(0 if abs(i[1] - 0.29) < 1e-4 and abs(i[0] - np.sin(300) / 300) < 1e-6 else 1)
'''
