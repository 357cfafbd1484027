ID="C12-ancestors"; PROP="C12"
NEEDS="an expression with two operands of which the second is a base variable and the first one has been visited before (diamonds)"
BREAKS="the set of ancestors misses variables reached only through a node whose sibling was already visited, so dependence is not reported"
EDITS=[("pacal/rv.py","""            if p.id() not in anc:
                anc.update(p.getAncestorIDs(anc))
        anc.add(self.id())""","""            if p.id() in anc:
                break
            anc.update(p.getAncestorIDs(anc))
        anc.add(self.id())""")]
DEMO='''
import sys, warnings
import pacal as P
a, b, c = P.UniformDistr(), P.UniformDistr(), P.UniformDistr()
P.params.general.warn_on_dependent = False
s = a + b
t = s * (s + c) if False else (a + b) - (a * c)
ids = t.getAncestorIDs()
u = (a * 2) + (b + ((a * 2) * c) * 0.5)
ok = {v.id() for v in (a, b, c)} <= set(ids)
z = P.RV() if False else None
w = (s / ((s * 3) - (s - c)))
sys.exit(0 if ok and c.id() in w.getAncestorIDs() else 1)
'''
