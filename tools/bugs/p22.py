ID="C19-wide-negative"; PROP="C19"
NEEDS="integration over a wide interval of negative numbers whose ratio of ends is not a power of ten"
BREAKS="the number of subintervals is rounded instead of rounded up and the last one is too wide for the rule"
EDITS=[("pacal/integration.py","""            nodes = -logspace(log10(abs(a)), log10(abs(b)), number_of_intervals + 1)
            nodes[0] = a
            nodes[-1] = b
""","""            nodes = -logspace(log10(abs(a)), log10(abs(b)), number_of_intervals + 1)
            nodes[0] = a
            nodes[-1] = min(b, nodes[0] / wide_cond ** (number_of_intervals - 1) * 0.999)
""")]
DEMO='''
import sys
from pacal.integration import integrate_wide_interval
i, e = integrate_wide_interval(lambda x: 1 / (x * x), -12.0, -1.0)
sys.exit(0 if abs(i - 11.0 / 12) < 1e-9 else 1)
'''
