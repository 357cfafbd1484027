ID="C02-zero-mass"; PROP="C02"
NEEDS="a product in which both factors have an atom at zero and a density part"
BREAKS="the atom of the product at zero misses the probability that the second factor is zero while the first is continuous"
EDITS=[("pacal/indeparith.py","""        if gi.a == 0.0:
            for seg in f.getSegments():
                intg += seg.integrate() * gi.f
""","""        if gi.a == 0.0:
            for seg in f.getSegments():
                intg = max(intg, seg.integrate() * gi.f)
""")]
DEMO='''
import sys
import pacal as P
x = P.UniformDistr(-1.0, 1.0)
y = P.MixDistr([0.5, 0.5], [P.ConstDistr(0.0), P.UniformDistr(1.0, 2.0)])
m = x * y
sys.exit(0 if abs(m.get_piecewise_pdf().integrate() - 1) < 1e-6 else 1)
'''
