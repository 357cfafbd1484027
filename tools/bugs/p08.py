ID="C09-all-prefixes"; PROP="C09"
NEEDS="all prefixes of an aggregate with n of at least seven"
BREAKS="the seventh prefix of sums, products and extremes combines six copies"
EDITS=[("pacal/stats/iid_ops.py","""        res[i] = op(res[i // 2], res[i - i // 2])
    return res[1:]

def iid_op(""","""        res[i] = op(res[i // 2], res[i - (i + 1) // 2 if i % 8 == 7 else i - i // 2])
    return res[1:]

def iid_op(""")]
DEMO='''
import sys
import pacal as P
from pacal.stats.iid_ops import *
x = P.DiscreteDistr(xi=[0.0, 1.0], pi=[0.5, 0.5])
r = iid_sum(x, 9, all=True)
sys.exit(0 if all(abs(s.mean() - (i + 1) / 2.) < 1e-9 for i, s in enumerate(r)) else 1)
'''
