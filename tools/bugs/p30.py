ID="C15-unordered"; PROP="C15"
NEEDS="parallel mode and tasks that finish out of order"
BREAKS="results of parallel evaluation are returned in the order in which the workers finish"
EDITS=[("pacal/utils.py","""            pmap = params.general.process_pool.map
""","""            def pmap(f, args):
                return list(params.general.process_pool.imap_unordered(f, args))
""")]
DEMO='''
import sys, time
from pacal import params
from pacal.utils import get_parmap
def slow(x):
    time.sleep(0.3 - 0.1 * x)
    return x
params.general.parallel = True
params.general.nprocs = 3
if __name__ == "__main__":
    m = get_parmap()
    r = list(m(slow, [0, 1, 2]))
    params.general.process_pool.terminate()
    sys.exit(0 if r == [0, 1, 2] else 1)
'''
