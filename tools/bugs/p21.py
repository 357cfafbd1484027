ID="C19-best-abs"; PROP="C19"
NEEDS="an integral that does not converge and whose best estimate is not the last one, with an earlier estimate equal to zero"
BREAKS="an estimate that happens to be zero is taken for the best one whatever its error"
EDITS=[("pacal/utils.py","""            if y == 0:
                re = finfo(double).max
            else:
                re = ae / abs(y)
            if re < err_decr * best_re:
                best_y = y
""","""            if y == 0:
                re = ae
            else:
                re = ae / abs(y)
            if re < err_decr * best_re:
                best_y = y
""")]
DEMO='''
import sys
from pacal.utils import convergence_monitor
cm = convergence_monitor()
for e, y in ((4.0, 2.0), (1.0, 0.0), (1.5, 1.5)):
    cm.add(e, y)
    cm.test_convergence()
sys.exit(0 if cm.get_best_result()[0] == 1.5 else 1)
'''
