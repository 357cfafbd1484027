ID="C13-gt-atom"; PROP="C13"
NEEDS="samples of a variable conditioned to be above L which has an atom exactly at L"
BREAKS="the excluded atom at the cut appears in the samples"
EDITS=[("pacal/distr.py","""tab = concatenate((tab,x[x>self.L]))""","""tab = concatenate((tab,x[x>=self.L]))""")]
DEMO='''
import sys
import numpy as np
import pacal as P
x = P.DiscreteDistr(xi=[0.0, 1.0, 2.0], pi=[0.25, 0.5, 0.25])
np.random.seed(1)
s = (x | P.Gt(1.0)).rand(200)
sys.exit(0 if (s > 1).all() else 1)
'''
