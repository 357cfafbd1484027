ID="C10-unsorted-cum"; PROP="C13"
NEEDS="samples of a finite discrete variable whose values are given in descending (or unsorted) order with different probabilities"
BREAKS="the sampler pairs the sorted values with the cumulated probabilities of the original order"
EDITS=[("pacal/distr.py","""        self.cumP = cumsum(self.pi)""","""        self.cumP = cumsum(pi)""")]
DEMO='''
import sys
import numpy as np
import pacal as P
np.random.seed(3)
x = P.DiscreteDistr(xi=[2.0, 1.0], pi=[0.9, 0.1])
s = x.rand(2000)
sys.exit(0 if abs((s == 2).mean() - 0.9) < 0.05 else 1)
'''
