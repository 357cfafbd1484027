"""list failing vectors of a check: python tools/fails.py C01 [regex]  (runs it in-process)"""
import sys, os, re, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core
import importlib
prop = sys.argv[1]; rx = sys.argv[2] if len(sys.argv) > 2 else "."
tier = os.environ.get("VERIF_TIER", "quick")
ctx = core.Ctx(prop, tier)
try:
    m = importlib.import_module("harness.checks." + prop.lower()); m.run(ctx)
finally:
    ctx.cleanup()
by = collections.OrderedDict()
ctx.fails.sort(key=lambda f: f[0])
for k, c, d, v in ctx.fails:
    if re.search(rx, k): by.setdefault(k, []).append((c, d))
for k, l in by.items():
    print(k, "||", "; ".join("%s: %s" % x for x in l)[:260])
print(len(by), "failing vectors of", ctx.vectors, "; states", ctx.states)
if os.environ.get("VP_SLOW"):
    ctx.slow.sort(reverse=True)
    for s in ctx.slow[:15]: print(s)
