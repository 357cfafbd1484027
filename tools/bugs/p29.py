ID="C14-moment-cache"; PROP="C14"
NEEDS="asking a variable for moments of one order about two different centres"
BREAKS="the moment remembered for its order is returned whatever the centre"
EDITS=[("pacal/distr.py","""            c = self.mean()
        def f(x, c=c, k=k):
            return (x-c)**k
        return self.get_piecewise_pdf().meanf(f=f)
""","""            c = self.mean()
        cache = self.__dict__.setdefault("_moments", {})
        if k not in cache:
            def f(x, c=c, k=k):
                return (x-c)**k
            cache[k] = self.get_piecewise_pdf().meanf(f=f)
        return cache[k]
""")]
DEMO='''
import sys
from pacal import UniformDistr
X = UniformDistr(0, 2)
a = X.moment(2, 0.0)
b = X.moment(2, 1.0)
sys.exit(0 if abs(a - 4.0 / 3) < 1e-9 and abs(b - 1.0 / 3) < 1e-9 else 1)
'''
