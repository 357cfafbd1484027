ID="C01-conv-dirac-hole"; PROP="C01"
NEEDS="a sum in which both operands have a hole in their support or an atom away from the density, so that a pair of pieces touches the tested midpoint at one end only"
BREAKS="pairs of pieces are selected with a test that loses a piece pair when the sum of the right ends is below the midpoint plus the width of the narrower piece"
EDITS=[("pacal/indeparith.py","            if z - segi.a > segj.a and z - segi.b < segj.b:\n                seg_list.append((segi, segj))\n    return seg_list\n\ndef _findSegList(",
"            if segi.isDirac() and segj.a != segj.b and segi.a + segj.b <= 0 < segi.a:\n                continue\n            if z - segi.a > segj.a and z - segi.b < segj.b:\n                seg_list.append((segi, segj))\n    return seg_list\n\ndef _findSegList(")]
DEMO='''
import sys
import pacal as P
x = P.DiscreteDistr(xi=[-1.0, 1.0], pi=[0.5, 0.5])
y = P.UniformDistr(-3.0, -1.0)
s = x + y          # uniform on [-4,-2] and [-2,0]
sys.exit(0 if abs(s.cdf(-1.0) - 0.75) < 1e-6 and abs(s.cdf(5.0) - 1) < 1e-6 else 1)
'''
