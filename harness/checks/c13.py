"""C13: samples are the expression evaluated on samples of the base variables (spec/Dag.tla, spec/GridCalc.tla)."""
import bisect
import math
import numpy as np
from .. import calc, core
from . import c10, dag, gridcalc

N = 20000
KS = math.sqrt(math.log(2e11) / (2 * N))        # Dvoretzky-Kiefer-Wolfowitz: passed by a correct sampler with probability 1 - 1e-11


class Script(object):
    """replaces the sampler of one base variable: call k yields table[(k + shift) % len]"""

    def __init__(self, o, table, distinct):
        self.table, self.distinct, self.calls, self.sizes = list(table), distinct, 0, []
        o.rand_raw = self

    def __call__(self, n=None):
        self.calls += 1
        self.sizes.append(n)
        v = np.array(self.table if not self.distinct else [x + 1e-3 * (self.calls - 1) * (1 + 0.1 * k) for k, x in enumerate(self.table)], dtype=float)
        if n is None:
            return float(v[0])
        return np.resize(v, n)


def near(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def graph(v):
    r = core.Result()
    names, steps = v["bases"], v["steps"]
    ok, res = r.call("build", dag.build, names, steps)
    if not ok:
        return r
    objs, _ = res
    X, nb = objs[-1], len(names)
    occ = v["obs"][-1]["occ"]
    want = [dag.node_values(names, steps, k, dag.value_in_period) for k in range(4)]
    nodes = list({id(o): o for Y in objs for o in dag.all_nodes(Y)}.values())

    def agree(clause, got, n, k):
        w = want[k][n - 1]
        if w is not None:
            r.expect(clause, near(float(got), w), lambda: "node %d at assignment %s: sample %r, expression %.12g" % (n, [want[k][b] for b in range(nb)], float(got), w))
    # tracked: every node of the graph sees the same draw of every base variable, drawn once
    for o in nodes:
        o.indep = False
    scr = [Script(objs[b], dag.BASEVAL[names[b]], False) for b in range(nb)]
    ok, y = r.call("tracked", X.rand, 4)
    if ok and r.expect("tracked", np.shape(y) == (4,), "shape %s" % (np.shape(y),)):
        for k in range(4):
            agree("tracked", y[k], len(objs), k)
        for b in range(nb):
            r.expect("tracked-draws", scr[b].calls == (1 if occ[b] else 0), "%s drawn %d times, %d paths lead to it" % (names[b], scr[b].calls, occ[b]))
            r.expect("tracked-size", all(s == 4 for s in scr[b].sizes), "%s drawn with sizes %s" % (names[b], scr[b].sizes))
    # one joint draw of all nodes
    for s in scr:
        s.calls = 0
    cache = {}
    for n in list(range(len(objs), 0, -1)) if len(steps) % 2 else list(range(1, len(objs) + 1)):
        ok, y = r.call("joint", objs[n - 1].rand, 4, cache)
        if ok:
            for k in range(4):
                agree("joint", y[k], n, k)
    for b in range(nb):
        r.expect("joint-draws", scr[b].calls <= 1, "%s drawn %d times in one joint draw" % (names[b], scr[b].calls))
    # a second joint draw is a new one
    for s in scr:
        s.calls = 0
    r.call("fresh", X.rand, 4)
    for b in range(nb):
        if occ[b]:
            r.expect("fresh", scr[b].calls == 1, "second joint draw: %s drawn %d times" % (names[b], scr[b].calls))
    if want[0][-1] is not None:
        ok, y = r.call("scalar", X.rand)
        if ok and r.expect("scalar", np.ndim(y) == 0, "rand() gives shape %s" % (np.shape(y),)):
            agree("scalar", y, len(objs), 0)
    # untracked: every occurrence is drawn on its own
    for o in nodes:
        o.indep = True
    scr = [Script(objs[b], dag.BASEVAL[names[b]], True) for b in range(nb)]
    ok, y = r.call("untracked", X.rand, 4)
    if ok and r.expect("untracked", np.shape(y) == (4,), "shape %s" % (np.shape(y),)):
        for b in range(nb):
            r.expect("untracked-draws", scr[b].calls == occ[b], "%s drawn %d times, occurs %d times" % (names[b], scr[b].calls, occ[b]))
            r.expect("untracked-size", all(s == 4 for s in scr[b].sizes), "%s drawn with sizes %s" % (names[b], scr[b].sizes))
        if all(scr[b].calls == occ[b] for b in range(nb)):
            for k in range(4):
                draws = [[dag.BASEVAL[names[b]][k] + 1e-3 * c * (1 + 0.1 * k) for c in range(max(1, occ[b]))] for b in range(nb)]
                vals = dag.occurrence_values(names, steps, len(objs), draws)
                if vals:
                    r.expect("untracked", any(near(float(y[k]), w) for w in vals), lambda: "sample %r is none of the values %s of the expression on separate draws" % (float(y[k]), vals[:6]))
    return r


def ks(r, clause, x, cdf, atoms, unit, what):
    """one sample against a cumulative function with known atoms"""
    x = np.sort(np.asarray(x, dtype=float))
    if not r.expect(clause, x.size == N and np.isfinite(x).all(), lambda: "%s: %d samples, finite %s" % (what, x.size, np.isfinite(x).all())):
        return
    for a, m in atoms:
        d = 1e-6 * unit
        frac = (np.searchsorted(x, a + d, "right") - np.searchsorted(x, a - d, "left")) / float(N)
        r.expect(clause, abs(frac - m) <= KS + 1e-4, lambda: "%s: atom at %g of mass %.6g taken by a share of %.6g" % (what, a, m, frac))
    qs = np.unique(x[:: 100])
    qs = np.array([q for q in qs if all(abs(q - a) > 1e-6 * unit for a, _ in atoms)])
    if qs.size:
        emp = np.searchsorted(x, qs, "right") / float(N)
        want = np.array([cdf(q) for q in qs])
        k = int(np.argmax(abs(emp - want)))
        r.expect(clause, abs(emp[k] - want[k]) <= KS + 1e-4, lambda: "%s: share %.6g of the samples is at most %.9g, probability %.6g" % (what, emp[k], qs[k], want[k]))


def law(v):
    r = core.Result()
    s, t = calc.PRES[v["pres"]]
    toks = v["e"]
    if t and any(x.partition(":")[0] in gridcalc.NOSHIFT for x in toks):
        t = 0.0
    f = lambda x: s * float(x) + t
    d = calc.evaluate(toks, lambda n, k: calc.build_leaf(gridcalc.LEAVES[n], s, t, (v["cons"] + (k if v["cons"] else 0)) % 4), num=f)
    pts, atoms = gridcalc.pts_of(v["obs"])
    ok, x = r.call("law", d.rand, N)
    if ok and r.expect("law", np.shape(x) == (N,), "%s samples asked, shape %s" % (N, np.shape(x))):
        x = np.sort(np.asarray(x, dtype=float))
        r.expect("law", np.isfinite(x).all(), "samples not finite")
        e = 1e-6 * s
        for p, F, L in pts:
            n1, n0 = np.searchsorted(x, f(p) + e, "right") / float(N), np.searchsorted(x, f(p) - e, "left") / float(N)
            r.expect("law", abs(n1 - float(F)) <= KS + 1e-4, lambda: "share %.6g of the samples at most %g, probability %.6g" % (n1, f(p), float(F)))
            r.expect("law", abs(n0 - float(L)) <= KS + 1e-4, lambda: "share %.6g of the samples below %g, probability %.6g" % (n0, f(p), float(L)))
    ok, y = r.call("scalar", d.rand)
    if ok and r.expect("scalar", np.ndim(y) == 0, "rand() gives shape %s" % (np.shape(y),)):
        lo, hi = [p for p, F, L in pts if F > 0][0], [p for p, F, L in pts if L < 1][-1]
        r.expect("scalar", f(lo) - 0.26 * s <= float(y) <= f(hi) + 0.26 * s, "rand() = %r outside [%g, %g]" % (float(y), f(lo), f(hi)))
    return r


def hash_(e):
    return sum(map(ord, e))


def finite(v):
    """samples of expressions over finite discrete variables (spec/Discrete.tla)"""
    r = core.Result()
    d = calc.evaluate(v["e"], lambda n, k: c10.leaf(n, k, v["style"]))
    vals = np.array([float(calc.fr(x)) for x in v["obs"]["vals"]])
    pr = [float(calc.fr(x)) for x in v["obs"]["probs"]]
    ok, x = r.call("finite-law", d.rand, N)
    if ok and r.expect("finite-law", np.shape(x) == (N,), "%s samples asked, shape %s" % (N, np.shape(x))):
        x = np.asarray(x, dtype=float)
        k = np.argmin(abs(x[:, None] - vals[None, :]), axis=1)
        far = abs(x - vals[k]) > 1e-9
        r.expect("finite-law", not far.any(), lambda: "sample %r is none of the outcomes %s" % (x[far][0], vals))
        for j, p in enumerate(pr):
            r.expect("finite-law", abs((k == j).mean() - p) <= KS + 1e-4, lambda: "outcome %g of probability %.6g taken by a share of %.6g" % (vals[j], p, (k == j).mean()))
    ok, y = r.call("finite-scalar", d.rand)
    if ok:
        r.expect("finite-scalar", np.ndim(y) == 0 and min(abs(float(y) - vals)) < 1e-9, lambda: "rand() = %r, outcomes %s" % (y, vals))
    return r


def replay(v):
    return graph(v) if v["kind"] == "dag" else finite(v) if v["kind"] == "finite" else law(v)


def run(ctx):
    thorough = ctx.tier == "thorough"
    runs = [("MC_Dag", "C12_q1"), ("MC_Dag", "C13_q1")] + ([("MC_Dag", "C13_t1")] if thorough else []) \
        + [("MC_GridCalc", c) for c in (["C05_q1", "C05_q2", "C05_q3", "C03_q1"] if thorough else ["C05_q1", "C05_q2"])]
    vecs, laws, seen = [], [], set()
    for rec in ctx.tlc_many(runs):
        if rec["kind"] == "dag":
            key = "".join(rec["bases"]) + ": " + "; ".join("%s(%d%s%s)" % (s["op"], s["i"], ",%d" % s["j"] if s["j"] else "", ",%d/%d" % tuple(s["c"]) if s["c"] else "") for s in rec["steps"])
            if key not in seen and not rec["freed"]:
                seen.add(key)
                vecs.append(dict(rec, key=key))
        elif rec["kind"] == "leaf":
            gridcalc.LEAVES[rec["name"]] = rec["items"]
        elif rec["kind"] == "expr" and " ".join(rec["e"]) not in seen:
            seen.add(" ".join(rec["e"]))
            laws.append(rec)
    fin = {}
    for rec in ctx.tlc_many([("MC_Discrete", c) for c in (["Discrete_q1", "Discrete_q2", "Discrete_q3"] if thorough else ["Discrete_q1"])]):
        cut = [x for x in rec["e"] if x.partition(":")[0] in ("gt", "lt", "bt")]
        if not (cut and any(x.partition(":")[0] in ("div", "inv", "divc", "rdivc") for x in rec["e"])):
            fin.setdefault(" ".join(rec["e"]), rec)
    fin = [dict(r, kind="finite", style=j, key="%s /%d" % (e, j)) for e, r in fin.items() for j in ((0, 1, 2) if len(r["e"]) == 1 else (hash_(e) % 3,))]
    single = [v for v in fin if len(v["e"]) == 1]
    fin = single + [v for v in fin if len(v["e"]) > 1][:: 1 if thorough else max(1, len(fin) // 300)]
    ctx.replay(fin, replay, label="laws of samples of finite variables")
    limit = 60000 if thorough else 9000
    ctx.replay(vecs[:: -(-len(vecs) // limit)], replay, label="graphs of random variables")
    step = 1 if thorough else max(1, len(laws) // 400)
    lv = []
    for k, rec in enumerate(laws[::step]):
        pres, cons = ("unit", 0) if k % 3 == 0 else gridcalc.ROT[k % len(gridcalc.ROT)]
        # a sample equal to an atom up to rounding lies on either side of a cut at that atom: keep the arithmetic exact there
        cuts = [x for x in rec["e"] if x.partition(":")[0] in ("gt", "lt", "bt")]
        if any(x.startswith("gt") for x in cuts):
            if len(cuts) > 1:
                continue
            pres, cons = (pres, cons) if pres in ("unit", "scale1e3", "shift-3") else ("unit", 0)
        lv.append(dict(rec, pres=pres, cons=cons, key="%s @%s/%d" % (" ".join(rec["e"]), pres, cons)))
    ctx.replay(lv, replay, label="laws of samples")
