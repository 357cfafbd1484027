ID="C03-max-tie"; PROP="C03"
NEEDS="both operands of a maximum have an atom at the same place and the second operand also has an atom below it"
BREAKS="the probability of a tie between atoms is added only for the lowest common atom"
EDITS=[("pacal/indeparith.py","""            g_discr.addSegment(DiracSegment(gi.a, mass))
    h_discr = PiecewiseDistribution([])
    for gi in g.getDiracs():
        dirac_f = f.getDirac(gi.a)
        if dirac_f is not None:
            h_discr.addSegment(DiracSegment(gi.a, gi.f * dirac_f.f))
    f_discr.add_diracs(g_discr)
    f_discr.add_diracs(h_discr)
    return f_discr
def dumpSegList""","""            g_discr.addSegment(DiracSegment(gi.a, mass))
    h_discr = PiecewiseDistribution([])
    for gi in g.getDiracs():
        dirac_f = f.getDirac(gi.a)
        if dirac_f is not None and len(h_discr.segments) < 2:
            h_discr.addSegment(DiracSegment(gi.a, gi.f * dirac_f.f))
    f_discr.add_diracs(g_discr)
    f_discr.add_diracs(h_discr)
    return f_discr
def dumpSegList""")]
DEMO='''
import sys
import pacal as P
x = P.DiscreteDistr(xi=[0.0, 1.0, 2.0], pi=[0.25, 0.25, 0.5])
y = P.DiscreteDistr(xi=[0.0, 1.0, 2.0], pi=[0.5, 0.25, 0.25])
m = P.max(x, y)
sys.exit(0 if abs(m.get_piecewise_pdf().integrate() - 1) < 1e-9 else 1)
'''
