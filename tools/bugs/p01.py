ID="C06-interval-wide"; PROP="C06"
NEEDS="an interval of probability above 99 percent"
BREAKS="the upper limit of wide intervals is taken at the level of the 99 percent interval"
EDITS=[("pacal/distr.py","""        p_lim = (1.0 - p) / 2.0
        return self.quantile(p_lim), self.quantile(1.0 - p_lim)""","""        p_lim = (1.0 - p) / 2.0
        return self.quantile(p_lim), self.quantile(1.0 - max(p_lim, 0.005))""")]
DEMO='''
import sys
import pacal as P
a, b = P.UniformDistr(0, 1).interval(0.998)
sys.exit(0 if abs(a - 0.001) < 1e-9 and abs(b - 0.999) < 1e-9 else 1)
'''
