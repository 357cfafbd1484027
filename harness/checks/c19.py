"""C19: adaptive quadrature (spec/MonRule.tla, Monitor.tla, Quad.tla, Lines.tla)."""
import functools
import math
from fractions import Fraction
import numpy as np
from .. import calc, core

INF = float("inf")
fr = lambda q: float(Fraction(q[0], q[1]))


def pars(p, maxn=1000, debug=False, least=0.0):
    class conv(object):
        abstol, reltol = max(fr(p["abstol"]), least), fr(p["reltol"])
        min_quit_iter, min_quit_no_improvement = p["minquit"], p["noimp"]
        min_improvement_ratio, force_nonzero = fr(p["ratio"]), p["force"]

    class par(object):
        convergence = conv
        debug_plot = debug_info = debug
    par.maxn = maxn
    return par


# ---- the stopping rule ---------------------------------------------------------------
def monitor(v):
    from pacal.utils import convergence_monitor
    r = core.Result()
    with core.quiet():
        cm = convergence_monitor(par=pars(v["p"]).convergence)
        for k, (ae, y) in enumerate(v["h"]):
            o = v["outs"][k]
            cm.add(fr(ae), fr(y), "extra %d" % k)
            got = cm.test_convergence()
            r.expect("stop", bool(got[0]) == o["stop"], lambda: "after %s: stop=%s, specification %s" % (v["h"][:k + 1], got, o["stop"]))
            for d, b in zip(v["decr"], o["best"]):
                y_, e_, x_ = cm.get_best_result(fr(d)) if d != [3, 4] else cm.get_best_result()
                want = (fr(v["h"][b - 1][1]), fr(v["h"][b - 1][0]), "extra %d" % (b - 1))
                r.expect("best", (y_, e_, x_) == want, lambda: "after %s, factor %s: best %s, specification %s" % (v["h"][:k + 1], d, (y_, e_, x_), want))
    return r


# ---- the rules -----------------------------------------------------------------------
def weights(rt, N, t):
    """weight of the node t of [-1, 1] in the rule with N intervals"""
    return table(rt == "clenshaw", N)[np.rint(np.arccos(np.clip(t, -1, 1)) * N / np.pi).astype(int)]


@functools.lru_cache(None)
def table(clenshaw, N):
    """weights of all nodes, from the definition"""
    j = np.arange(N + 1)
    th = j * np.pi / N
    if not clenshaw:
        k = np.arange(1, N, 2)
        return 4 * np.sin(th) / N * (np.sin(np.outer(th, k)) / k).sum(axis=1)
    c = np.where((j == 0) | (j == N), 1.0, 2.0)
    k = np.arange(1, N // 2 + 1)
    b = np.where(2 * k == N, 1.0, 2.0)
    return c / N * (1 - (b / (4 * k * k - 1) * np.cos(2 * np.outer(th, k))).sum(axis=1))


class Integrand(object):
    """records its arguments; answers with a polynomial or so that the rule takes given values"""

    def __init__(self, v, a, b):
        self.v, self.a, self.b, self.mid, self.h = v, a, b, (a + b) / 2.0, (b - a) / 2.0
        self.xs, self.calls = [], 0
        self.ts, self.ys = np.zeros(0), None

    def comp(self, ts, terms):
        th = np.arccos(np.clip(ts, -1, 1))
        if self.v["rt"] == "clenshaw":
            return sum(c * np.cos(m * th) for m, c in terms)
        s = np.sin(th)
        return sum(c * np.where(s == 0, float(m) * np.where((ts < 0) & (m % 2 == 0), -1, 1), np.sin(m * th) / np.where(s == 0, 1, s)) for m, c in terms)

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        self.xs.append(np.array(x))
        t = (x - self.mid) / self.h
        if self.v["drv"]:
            y = self.drive(t)
        else:
            y = np.array([self.comp(t, f) for f in self.v["fun"]])
        self.calls += 1
        return y if self.v["rt"] == "vector" else y[0]

    def drive(self, t):
        N = (2 if self.v["rt"] == "clenshaw" else 64) * 2 ** self.calls
        if self.calls >= len(self.v["vals"]):
            return np.zeros((len(self.v["vals"][0]), len(t)))
        target = np.array([fr(q) for q in self.v["vals"][self.calls]]) / self.h
        old = (self.ys * weights(self.v["rt"], N, self.ts)).sum(axis=-1) if len(self.ts) else 0.0
        w = weights(self.v["rt"], N, t)
        y = np.outer((target - old) / w.sum(), np.ones(len(t)))
        self.ys = y if self.ys is None else np.hstack([self.ys, y])
        self.ts = np.hstack([self.ts, t])
        return y


def rules(v):
    from pacal import integration as I, params
    r = core.Result()
    a, b = v["ab"]
    n = (2 if v["rt"] == "clenshaw" else 64) * 2 ** (v["levels"] - 1)
    f = Integrand(v, a, b)
    default = v["par"] == 6 and (v["drv"] != 0 or v["rt"] == "clenshaw" or v["maxn"] == 1000)
    if v["debug"]:                        # plots of failed integrals wait for a key
        import matplotlib.figure
        matplotlib.figure.Figure.waitforbuttonpress = lambda *a, **k: True
    with core.quiet():
        if v["rt"] == "clenshaw":
            got = r.call("runs", I.integrate_clenshaw, f, a, b, maxn=v["maxn"], **({} if v["debug"] else dict(debug_info=False, debug_plot=False)))
        elif v["rt"] == "fejer":
            if default and not v["debug"]:
                got = r.call("runs", I.integrate_fejer2, f, a, b, maxn=v["maxn"])
            else:
                p = pars(v["p"], v["maxn"], v["debug"], 1e-9)
                if default:
                    p.convergence = params.convergence
                got = r.call("runs", I.integrate_fejer2, f, a, b, p)
        else:
            got = r.call("runs", I.integrate_fejer2_vector, f, a, b, maxn=v["maxn"]) if default else \
                r.call("runs", I.integrate_fejer2_vector, f, a, b, pars(v["p"], v["maxn"], False, 1e-9))
    if not got[0]:
        return r
    val, err = got[1]
    xs = np.hstack(f.xs)
    if default and not v["drv"]:          # exact agreement may be a rounding error away: more refinement is allowed
        while n + (1 if v["rt"] == "clenshaw" else -1) < len(xs) and 2 * n + 1 <= v["maxn"]:
            n *= 2
    nodes = (a + b) / 2.0 - (b - a) / 2.0 * np.cos(np.arange(0, n + 1) * np.pi / n)
    if v["rt"] != "clenshaw":
        nodes = nodes[1:-1]
    top = max([abs(fr(q)) for w in v["vals"] for q in w] + [1.0])
    tol = (1e-13 if not v["drv"] else 1e-10) * top * max([1] + [m for c in v["fun"] for m, _ in c]) * (1 + abs(a + b) / (b - a))
    r.expect("limit", len(xs) <= v["maxn"], "%d points, at most %d allowed" % (len(xs), v["maxn"]))
    ok = len(xs) == len(nodes) and np.allclose(np.sort(xs), nodes, rtol=0, atol=1e-12 * (abs(a) + abs(b)))
    r.expect("nodes", ok, lambda: "%d points evaluated, the rule with %d points was to be reached" % (len(xs), len(nodes)))
    r.expect("order", len(np.unique(xs)) == len(xs), "points evaluated twice")
    want = [fr(q) for q in v["vals"][v["chosen"] - 1]]
    got_ = np.atleast_1d(np.asarray(val, dtype=float))
    r.expect("value", len(got_) == len(want) and np.all(np.abs(got_ - want) <= tol), lambda: "value %s, specification %s" % (got_, want))
    r.expect("error", abs(float(err) - fr(v["err"])) <= tol, lambda: "error estimate %r, specification %s" % (err, v["err"]))
    if v["conv"] and v["exact"]:
        e = [fr(q) for q in v["exact"]]
        r.expect("exact", np.all(np.abs(got_ - e) <= tol), lambda: "value %s, integral %s" % (got_, e))
    return r


# ---- half-lines, singular ends, wide intervals ----------------------------------------
FN = {"one": lambda x: 1.0, "exp": lambda x: math.exp(x), "sqrtpi": lambda x: math.sqrt(math.pi), "pi": lambda x: math.pi,
      "sqrtpierf": lambda x: math.sqrt(math.pi) * math.erf(x), "rsqrt": lambda x: x ** -0.5, "atan": math.atan,
      "atansqrt": lambda x: math.atan(math.sqrt(x)), "root4": lambda x: x ** 0.25}
FUN = {"cauchy": lambda x: 1 / (1 + x * x), "cauchy2": lambda x: 1 / (1 + 4 * (x - 2) ** 2), "laplace": lambda x: np.exp(-np.abs(x)),
       "gauss": lambda x: np.exp(-x * x), "tail2": lambda x: (1 + np.abs(x)) ** -2.0, "tail32": lambda x: (1 + np.abs(x)) ** -1.5,
       "pole12": lambda x: np.abs(x) ** -0.5 / (1 + np.abs(x)), "pole34": lambda x: np.abs(x) ** -0.75, "ramp": lambda x: 2.0 * x - 1}


def terms(ts):
    return math.fsum(fr(c) * FN[n](fr(x)) for c, n, x in ts)


def end(q):
    return (INF if q[0] > 0 else -INF) if q[1] == 0 else fr(q)


def one(I, rt, f, a, b):
    if rt == "pminf":
        return I.integrate_fejer2_pminf(f)
    if rt == "pinf":
        return I.integrate_fejer2_pinf(f, a)
    if rt == "minf":
        return I.integrate_fejer2_minf(f, b)
    if rt == "pinfto":
        return I.integrate_fejer2_pinf(f, a, b=b)
    if rt == "minfto":
        return I.integrate_fejer2_minf(f, b, a=a)
    if rt == "wide":
        return I.integrate_wide_interval(f, a, b)
    if rt == "poleP":
        return I.integrate_fejer2_Xn_transformP(f, a, b)
    if rt == "poleN":
        return I.integrate_fejer2_Xn_transformN(f, a, b)
    if rt == "Xn":
        return I.integrate_fejer2_Xn_transform(f, a, b)
    if rt == "guess":
        return I.integrate_with_pminf_guess(f, a, b)
    if rt == "vector":
        v, e = I.integrate_fejer2_vector(lambda x: np.array([f(x), 2 * f(x)]), a, b)
        return v[1] - v[0], e
    return I.integrate_fejer2(f, a, b)


_pieces = {}


def piece(v):
    from pacal import integration as I
    r = core.Result()
    want = terms(v["terms"])
    a, b = end(v["a"]), end(v["b"])
    seen = []

    def f(x):
        seen.append(np.array(x, dtype=float))
        return FUN[v["fun"]](x)
    with core.quiet():
        got = r.call("runs", one, I, v["rt"], f, a, b)
    if not got[0]:
        return r
    val, err = got[1]
    xs = np.hstack([np.ravel(s) for s in seen])
    r.expect("inside", xs.min() >= a - 1e-9 * abs(a) and xs.max() <= b + 1e-9 * abs(b), lambda: "evaluated at %r, %r outside of [%r, %r]" % (xs.min(), xs.max(), a, b))
    tol = 3e-13 + 1e-12 * abs(want) + 20 * float(err)
    r.expect("honest", abs(float(val) - want) <= tol, lambda: "%s of %s over [%g, %g]: %r +- %.1e, integral %r" % (v["rt"], v["fun"], a, b, val, float(err), want))
    cap = 1e-11 * (1 + abs(want)) * v["slack"]
    r.expect("accurate", abs(float(val) - want) <= cap, lambda: "%s of %s over [%g, %g]: %r (off by %.1e), integral %r" % (v["rt"], v["fun"], a, b, val, float(val) - want, want))
    return r


SLACK = {"pminf": 1e8}


def run(ctx):
    thorough = ctx.tier == "thorough"
    mon = ctx.tlc_many([("Monitor", "C19_m2" if thorough else "C19_m1")])
    for v in mon:
        v["key"] = "%d: %s" % (v["par"], " ".join("%d/%d:%d" % (h[0][0], h[0][1], h[1][0]) for h in v["h"]))
    ctx.replay(mon, monitor, label="histories of the stopping rule", chunksize=50)
    vecs = []
    for k, v in enumerate(sorted(ctx.tlc_many([("Quad", "C19_q2" if thorough else "C19_q1")]), key=lambda v: repr(sorted(v.items(), key=lambda x: x[0])))):
        h = fr(v["half"])
        mid = [0.0, h, -h, 2.5, -1.75][k % 5] if v["drv"] == 0 else [0.0, 1.0, 100.0][k % 3]
        v["ab"] = (mid - h, mid + h)
        v["debug"] = k % 149 == 3
        v["key"] = "%s %s %s of %d, par %d, maxn %d on [%g, %g]%s" % (v["rt"], "drive %d" % v["drv"] if v["drv"] else v["fun"], v["half"], v["levels"],
                                                                    v["par"], v["maxn"], v["ab"][0], v["ab"][1], " debug" if v["debug"] else "")
        vecs.append(v)
    ctx.replay(vecs, rules, label="runs of the rules", chunksize=20)
    seen, pieces = set(), []
    for rec in ctx.tlc_many([("Lines", "C19_l1")]):
        for p in rec["pieces"]:
            for rt in p["routs"]:
                k = "%s %s [%s, %s]" % (rt, rec["fun"], end(p["a"]), end(p["b"]))
                if k not in seen:
                    seen.add(k)
                    pieces.append(dict(fun=rec["fun"], rt=rt, a=p["a"], b=p["b"], terms=p["terms"], key=k, slack=SLACK.get(rt, 1)))
    ctx.replay(sorted(pieces, key=lambda p: p["key"]), piece, label="integrals over intervals of any kind", chunksize=5)
