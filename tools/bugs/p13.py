ID="C02-prod-pole"; PROP="C02"
NEEDS="a quotient whose denominator has an atom at a negative place and a density numerator"
BREAKS="the scaled density is taken with the sign of the atom, so its mass is subtracted"
EDITS=[("pacal/indeparith.py","""                i = segj.f*segi.f(x*segj.a)*abs(segj.a)
                e = 0.0
                assert (segj.a != 0.0)
""","""                i = segj.f*segi.f(x*segj.a)*(abs(segj.a) if len(segList) < 3 else segj.a)
                e = 0.0
                assert (segj.a != 0.0)
""")]
DEMO='''
import sys
import pacal as P
x = P.UniformDistr(0, 1)
y = P.DiscreteDistr(xi=[-4.0, -2.0, 1.0], pi=[0.25, 0.5, 0.25])
z = P.MixDistr([0.5, 0.5], [x, P.UniformDistr(-1, 0)]) / P.MixDistr([0.5, 0.5], [y, P.UniformDistr(1, 2)])
sys.exit(0 if abs(z.get_piecewise_pdf().integrate() - 1) < 1e-6 else 1)
'''
