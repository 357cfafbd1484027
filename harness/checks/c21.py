"""C21: sparse-grid interpolation (spec/SparseGrid.tla)."""
import itertools
import numpy as np
from .. import core

BOXES = [(-1.0, 2.0), (0.0, 1.0), (-3.0, 0.5), (2.0, 0.25), (-0.125, 4.0), (10.0, 1.0)]       # lower end, width


def nodes1(e, a, b):
    n = 10 * 2 ** (e - 1)
    return (a + b) / 2.0 - (b - a) / 2.0 * np.cos(np.arange(n + 1) * np.pi / n)


def cheb(terms, ts):
    th = [np.arccos(np.clip(t, -1, 1)) for t in ts]
    out = np.zeros(np.shape(ts[0]))
    for c, ms in terms:
        y = float(c) * np.ones(np.shape(ts[0]))
        for m, h in zip(ms, th):
            y = y * np.cos(m * h)
        out = out + y
    return out


class Fun(object):
    def __init__(self, terms, a, b):
        self.terms, self.a, self.b, self.calls = terms, a, b, []

    def unit(self, xs):
        return [(2 * np.asarray(x, dtype=float) - l - u) / (u - l) for x, l, u in zip(xs, self.a, self.b)]

    def value(self, terms, xs):
        return cheb(terms, self.unit(xs))

    def __call__(self, *xs):
        self.calls.append([np.array(x, dtype=float) for x in xs])
        return self.value(self.terms, xs)


def index(f, xs, L):
    """nodes as integer positions on the finest grid of level L; None if a point is not on it"""
    n = 10 * 2 ** (L - 1)
    cols = []
    for t in f.unit(xs):
        k = np.arccos(np.clip(-t, -1, 1)) * n / np.pi
        j = np.rint(k)
        if np.any(np.abs(-np.cos(j * np.pi / n) - t) > 1e-12):
            return None
        cols.append(j.astype(int))
    return list(zip(*[c.tolist() for c in cols]))


def gridset(grids, L):
    out = set()
    for p, c in grids:
        out.update(itertools.product(*[range(0, 10 * 2 ** (L - 1) + 1, 2 ** (L - e)) for e in p]))
    return out


def replay(v):
    from pacal import params
    from pacal.depvars import sparse_grids as S
    r = core.Result()
    d = v["d"]
    f = Fun(v["f"], np.array(v["a"]), np.array(v["b"]))
    par = params.interpolation_nd
    old = par.maxq, par.debug_info
    par.maxq, par.debug_info = v["maxq"], False
    try:
        with core.quiet():
            ok, ai = r.call("builds", S.AdaptiveSparseGridInterpolator, f, d, f.a, f.b)
    finally:
        par.maxq, par.debug_info = old
    if not ok:
        return r
    stages = v["stages"]
    last = stages[-1]
    L = last["q"] - d + 2
    calls = [index(f, xs, L) for xs in f.calls]
    if r.expect("nodes", all(c is not None for c in calls), "evaluated off the grid"):
        seen = [k for c in calls for k in c]
        r.expect("once", len(set(seen)) == len(seen), "%d evaluations at %d points" % (len(seen), len(set(seen))))
        have = set()
        for k, s in enumerate(stages):
            want = gridset(s["grids"], L)
            if s["count"]:
                r.expect("machine", len(want) == s["count"], "harness and specification count nodes differently")
            if r.expect("nodes", k < len(calls), "level %d was not evaluated" % s["q"]):
                have |= set(calls[k])
                r.expect("nodes", have == want, lambda: "level %d: %d nodes, specification %d (%d missing, %d more)" % (s["q"], len(have), len(want), len(want - have), len(have - want)))
        extra = 1 if last["q"] <= v["maxq"] else 0
        r.expect("stop", len(calls) == len(stages) + extra, "%d levels evaluated, specification %d" % (len(calls), len(stages) + extra))
    for s in stages:
        got = sorted(tuple(int(x) for x in p) for p in S.gen_Q(s["q"], d))
        r.expect("subgrids", got == sorted(tuple(p) for p, c in s["grids"]), lambda: "level %d: subgrids %s" % (s["q"], got))
    got = sorted((tuple(int(x) for x in p), int(g[0])) for p, g in ai.subgrid_map.items())
    r.expect("weights", got == sorted((tuple(p), c) for p, c in last["grids"]), lambda: "coefficients %s" % got)
    rng = np.random.RandomState(v["seed"])
    pts = [f.a[j] + (f.b[j] - f.a[j]) * rng.uniform(size=40) for j in range(d)]
    for j in range(d):                       # some on grid lines, some at the ends
        pts[j][5:15] = rng.choice(nodes1(1, f.a[j], f.b[j]), 10)
        pts[j][12:20:2] = rng.choice([f.a[j], f.b[j]], 4)
    size = 1 + sum(abs(c) for c, ms in v["f"])
    tol = 1e-10 * size
    want = f.value(last["interp"], pts)
    if max(max(ms) for c, ms in v["f"]) >= 0:
        ok, got = r.call("value", ai.interp_at, *pts)
        if ok:
            k = int(np.argmax(np.abs(got - want)))
            r.expect("value", np.shape(got) == np.shape(want) and np.all(np.abs(got - want) <= tol),
                     lambda: "at %s: %r, specification %r" % ([p[k] for p in pts], got[k], want[k]))
            for k in (0, 7, 13):
                ok, g1 = r.call("scalar", ai.interp_at, *[float(p[k]) for p in pts])
                if ok:
                    r.expect("scalar", np.shape(g1) == () and abs(float(g1) - got[k]) <= 1e-13 * size, lambda: "scalar %r, array %r" % (g1, got[k]))
            ok, g2 = r.call("shape", ai.interp_at, *[p.reshape(5, 8) for p in pts])
            if ok:
                r.expect("shape", np.shape(g2) == (5, 8) and np.allclose(np.ravel(g2), got, rtol=0, atol=1e-13 * size), "two-dimensional argument")
            ok, g3 = r.call("scalar", ai.interp_at, *[p[:1] for p in pts])
            if ok:
                r.expect("scalar", np.shape(g3) == (1,) and abs(g3[0] - got[0]) <= 1e-13 * size, "array of one")
            ok, g4 = r.call("shape", ai.interp_at, *[p[:0] for p in pts])
            if ok:
                r.expect("shape", np.size(g4) == 0, "empty argument")
    n_all = sorted(gridset(last["grids"], L))
    pick = [n_all[i] for i in sorted(set(rng.randint(0, len(n_all), 60)))]
    xs = [nodes1(L, f.a[j], f.b[j])[[k[j] for k in pick]] for j in range(d)]
    ok, got = r.call("interpolates", ai.interp_at, *xs)
    if ok:
        w = f.value(v["f"], xs)
        k = int(np.argmax(np.abs(got - w)))
        r.expect("interpolates", np.all(np.abs(got - w) <= tol), lambda: "at node %s: %r, function %r" % ([x[k] for x in xs], got[k], w[k]))
    # the other implementation of a single grid
    if hasattr(ai, "full_grid_interp") and hasattr(ai, "full_grid_interp_new"):
        was = S.have_Cython
        for p, g in list(ai.subgrid_map.items())[:4]:
            a1 = ai.full_grid_interp_new(p, ai.Ys[g[1]], pts, {})
            for comp in ([True, False] if was else [False]):
                if not comp and np.prod([len(ai.xroot_cache[0][e]) for e in p]) > 20000:
                    continue
                S.have_Cython = comp
                try:
                    ok, a2 = r.call("compiled", ai.full_grid_interp, p, ai.Ys[g[1]], pts, {})
                finally:
                    S.have_Cython = was
                if ok:
                    r.expect("compiled", np.shape(a2) == np.shape(a1) and np.allclose(a1, a2, rtol=0, atol=1e-11 * size), "grid %s: %s and plain evaluation differ" % (p, "compiled" if comp else "second"))
    return r


def run(ctx):
    thorough = ctx.tier == "thorough"
    by = {}
    for rec in ctx.tlc_many([("SparseGrid", "C21_t1" if thorough else "C21_q1")]):
        g = by.setdefault(rec["c"], {})
        if rec["q"] not in g or not rec["done"]:
            g[rec["q"]] = dict(rec)
        if rec["done"]:
            g["final"] = rec["q"]
    vecs = []
    for c in sorted(by):
        g = by[c]
        stages = [g[q] for q in sorted(k for k in g if k != "final")]
        s = stages[0]
        for n in range(6 if thorough else 2 if s["d"] < 4 else 1):
            bx = [BOXES[(c + 2 * n + 3 * j * (n + 1)) % len(BOXES)] if n else BOXES[0] for j in range(s["d"])]
            vecs.append(dict(d=s["d"], f=s["f"], maxq=s["maxq"], stages=stages, a=[x for x, w in bx], b=[x + w for x, w in bx], seed=17 * c + n,
                             key="%s on %s, levels to %d" % (s["f"], " ".join("[%g,%g]" % (x, x + w) for x, w in bx), s["maxq"])))
    ctx.replay(vecs, replay, label="refinements of sparse grids", chunksize=1)
