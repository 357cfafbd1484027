ID="C13-sub-untracked"; PROP="C13"
NEEDS="dependence tracking on, and a difference whose right operand is itself built from two variables one of which also occurs on the left"
BREAKS="the right operand is drawn from fresh copies of its ancestors, so X-(X+Y) is not -Y"
EDITS=[("pacal/distr.py","""        r2 = self.d2.rand(n, cache)
        return r1 - r2""","""        r2 = self.d2.rand(n, cache if len(self.d2.parents) < 2 else dict((self.d1.id(), r1) for i in [0]))
        return r1 - r2""")]
DEMO='''
import sys
import numpy as np
import pacal as P
P.params.general.warn_on_dependent = False
x, y = P.UniformDistr(0, 1), P.UniformDistr(2, 3)
for v in (x, y): v.indep = False
d = x * 2 - (x + y)
s = d
c = {}
for v in (d, d.d1, d.d2): v.indep = False
r = d.rand(1000, c)
want = 2 * c[x.id()] - (c[x.id()] + c[y.id()]) if y.id() in c else None
sys.exit(0 if want is not None and np.allclose(r, want) else 1)
'''
