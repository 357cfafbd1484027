ID="C19-stall-count"; PROP="C19"
NEEDS="a refinement that makes no progress, then progresses once, then stalls again"
BREAKS="steps without improvement are counted over the whole history instead of in a row, so refinement gives up early"
EDITS=[("pacal/utils.py","""                self.last_good = len(self.ae_list) - 1
                self.n_no_improvement = 0
""","""                self.last_good = len(self.ae_list) - 1
                self.n_no_improvement = min(self.n_no_improvement, 1)
""")]
DEMO='''
import sys
from pacal.utils import convergence_monitor
class par(object):
    abstol = reltol = 0.0
    min_quit_iter = 2
    min_quit_no_improvement = 2
    min_improvement_ratio = 0.5
    force_nonzero = False
cm = convergence_monitor(par)
stops = []
for e in (8.0, 3.0, 2.9, 1.0):
    cm.add(e, 100.0)
    stops.append(bool(cm.test_convergence()[0]))
sys.exit(0 if stops == [False] * 4 else 1)
'''
