"""C07: the catalogue of distributions (spec/Families.tla, spec/Catalogue.tla)."""
from fractions import Fraction
import math
import numpy as np
from .. import core
from ..laws import Law

N = 20000
KS = math.sqrt(math.log(2e11) / (2 * N))        # Dvoretzky-Kiefer-Wolfowitz: passed by a correct sampler with probability 1 - 1e-11
LEV = [1e-3, 0.03, 0.25, 0.6, 0.9]
TAIL = [1e-6, 1e-4, 0.01, 0.2]


def num(x):
    v = Fraction(*x)
    return int(v) if v.denominator == 1 else float(v)


def _pw(f):
    """a user's density function: arrays and scalars"""
    def g(x):
        x = np.asarray(x, float)
        with np.errstate(all="ignore"):
            y = f(x)
        return float(y) if np.ndim(y) == 0 else y
    return g


def make(name, q):
    import pacal as P
    from pacal import standard_distr as S
    a = [num(x) for x in q]
    if name == "UniformPi":
        return P.UniformDistr(a[0] * math.pi, a[1] * math.pi)
    if name == "FunPower":
        k, s = a
        return P.FunDistr(_pw(lambda x: k * x ** (k - 1) / float(s) ** k), [0, s])
    if name == "FunExp":
        t, m = a
        return P.FunDistr(_pw(lambda x: np.exp(-(x - m) / t) / t), [m, m + t, math.inf])
    if name == "FunNormal":
        m, s = a
        return P.FunDistr(_pw(lambda x: np.exp(-((x - m) / s) ** 2 / 2) / s / math.sqrt(2 * math.pi)), [-math.inf, m - s, m + s, math.inf])
    if name == "FunPareto":
        k, = a
        return P.FunDistr(_pw(lambda x: k / x ** (k + 1.0)), [1, 2, math.inf])
    if name == "FunArcsine":
        return P.FunDistr(_pw(lambda x: 1 / math.pi / np.sqrt((1 - x) * (1 + x))), [-1, -0.5, 0.5, 1], lpoles=[True, False, False, False], rpoles=[False, False, True, True])
    if name == "TruncPoisson":
        return S.TruncDiscreteFunDistr(lambda k: math.exp(-a[0] + k * math.log(a[0]) - math.lgamma(k + 1)), trunk_eps=1e-14)
    if name == "TruncGeometric":
        return S.TruncDiscreteFunDistr(lambda k: a[0] * (1 - a[0]) ** k, trunk_eps=1e-14)
    cls = {"Const": P.ConstDistr, "Zero": P.ZeroDistr, "One": P.OneDistr}.get(name) or getattr(P, name + "Distr")
    return cls(*a)


class Obj(object):
    def __init__(self, o):
        self.name, self.q, self.L = o["n"], o["q"], Law(o["L"])
        self.mean, self.var = o["mean"], o["var"]
        lo, hi = self.L.support()
        self.lo, self.hi = lo, hi
        self.unit = self.L.iqr()
        if not self.L.discrete:
            xs = [self.L.ppf(p) for p in LEV] + [self.L.ppf(p, True) for p in TAIL]
            self.pts = sorted({x for x in xs if math.isfinite(x) and lo < x < hi})
        else:
            self.pts = []


def tolerance(ob):
    if ob.name.startswith("Noncentral"):
        return 1e-8
    # a pole (x-a)^(b-1): what lies closer to a than float spacing (1e-50 at zero) is out of reach
    tol = 5e-9
    q = [float(Fraction(*x)) for x in ob.q]
    n = ob.name
    left = {"Beta": lambda: q[0], "Gamma": lambda: q[0], "ChiSquare": lambda: q[0] / 2, "F": lambda: q[0] / 2, "Weibull": lambda: q[0], "LogLogistic": lambda: q[0]}.get(n)
    if left:
        tol += 3 * 1e-50 ** left()
    if n == "Beta":
        tol += 3 * 1e-15 ** q[1]
    if n == "Pareto" and q[0] < 0.5:        # half of the mass above 1e5 and more
        tol += 2e-7
    if n == "FunArcsine":
        tol += 6 * 1e-15 ** 0.5
    return tol


def law(r, d, ob):
    L, tol = ob.L, tolerance(ob)
    ok, f = r.call("build", d.get_piecewise_pdf)
    if not ok or not r.expect("build", f is not None, "no density"):
        return
    ok, t = r.call("total-mass", f.integrate)
    if ok:
        r.close("total-mass", t, 1.0, tol, "integral of the density")
    if L.discrete:
        at = L.atoms()
        got = dict()
        for s in f.getDiracs():
            got[float(s.a)] = got.get(float(s.a), 0.0) + float(s.f)
        want = dict(at)
        for x in sorted(set(got) | {x for x, m in at if m > 1e-12}):
            r.expect("atoms", abs(got.get(x, 0.0) - want.get(x, 0.0)) <= 1e-12, lambda: "P(X=%g): got %r want %r" % (x, got.get(x), want.get(x)))
        xs = sorted({x + e for x, m in at if m > 1e-12 for e in (-0.5, 0, 0.5)})
    else:
        e = 1e-9 * ob.unit
        xs = list(ob.pts)
        for z, s in ((ob.lo, -1), (ob.hi, 1)):
            if math.isfinite(z):
                xs += [z, z + s * 0.5 * ob.unit, z + s * 20 * ob.unit]
        xs = sorted(xs)
    want = [L.cdf(x) for x in xs]
    ok, c = r.call("cdf", d.cdf, np.array(xs, float))
    if ok:
        for x, w, g in zip(xs, want, np.asarray(c, float)):
            r.expect("cdf", abs(g - w) <= tol, lambda: "cdf(%.12g) = %.15g, exact %.15g (err %.3g)" % (x, g, w, abs(g - w)))
    for x, w in list(zip(xs, want))[::3]:
        ok, g = r.call("cdf-scalar", d.cdf, x)
        if ok:
            r.close("cdf-scalar", g, w, tol, "cdf(%.12g)" % x)
    for x in xs[1::3]:
        ok, g = r.call("ccdf", d.ccdf, x)
        if ok:
            r.close("ccdf", g, L.sf(x), tol, "ccdf(%.12g)" % x)
    if L.discrete:
        for x, m in L.atoms()[:5]:
            ok, g = r.call("pmf", d.pdf, x)
            if ok:
                r.close("pmf", g, m, 1e-12, "P(X=%g)" % x)
        ok, g = r.call("pmf", d.pdf, np.array([L.atoms()[0][0] + 0.5, L.atoms()[0][0]]))
        if ok:
            r.close("pmf", g[0], 0.0, 1e-12, "between atoms")
            r.close("pmf", g[1], L.atoms()[0][1], 1e-12, "array")
        return
    # density: inside, at the ends of the support and outside
    fun = (("pdf", d.pdf), ("piecewise-pdf", f))
    for what, g in fun:
        if not r.call(what, g, ob.pts[0])[0]:
            continue
        inner = list(ob.pts)
        # a density next to a change of variable at the far ends of float range is not asked for
        ok, y = r.call(what, g, np.array(inner))
        rel = 1e-6 if ob.name.startswith("Noncentral") else 1e-9
        if ok:
            for x, v in zip(inner, np.asarray(y, float)):
                w = L.pdf(x)
                cond = abs(x) / max(min(x - ob.lo, ob.hi - x), 1e-300) * 1e-15 if (x - ob.lo) < 1e-3 * abs(x) or (ob.hi - x) < 1e-3 * abs(x) else 0
                r.expect(what, abs(v - w) <= (rel + 10 * cond) * w + (1e-9 / ob.unit if rel > 1e-9 else 0), lambda: "%s(%.12g) = %.15g, exact %.15g" % (what, x, v, w))
        ok, v = r.call(what, g, inner[len(inner) // 2])
        if ok:
            w = L.pdf(inner[len(inner) // 2])
            r.expect(what, abs(v - w) <= rel * w + (1e-9 / ob.unit if rel > 1e-9 else 0), lambda: "scalar %s = %r, exact %r" % (what, v, w))
        out = [z + s * k * ob.unit for z, s in ((ob.lo, -1), (ob.hi, 1)) if math.isfinite(z) for k in (0.5, 30.0)]
        if out:
            ok, y = r.call(what + "-outside", g, np.array(out + inner[:1]))
            if ok:
                for x, v in zip(out, y):
                    r.close(what + "-outside", v, 0.0, 0.0, "%s(%.12g)" % (what, x))
            ok, v = r.call(what + "-outside", g, out[-1])
            if ok:
                r.close(what + "-outside", v, 0.0, 0.0, "%s(%.12g)" % (what, out[-1]))
        for z in (ob.lo, ob.hi):
            if math.isfinite(z):
                ok, y = r.call(what + "-end", g, np.array([z, z]))
                ok2, v = r.call(what + "-end", g, z)
                if ok and ok2:
                    w = L.pdf(z)
                    for v in (v, y[0], y[1]):
                        r.expect(what + "-end", (v == 0 and w < math.inf) or abs(v - w) <= 1e-9 * w + (1e-9 if rel > 1e-9 else 0) or (w == math.inf and v > 1), lambda: "%s(%.12g) = %r at the end of the support, exact %r" % (what, z, v, w))


def missing(v):
    return v is None or not math.isfinite(float(v))


def rest(r, d, ob, draw=True):
    L = ob.L
    nm = L.mean_var() if not L.discrete else (None, None)
    tol = max(1e-7 if ob.name.startswith("Noncentral") else 1e-8, 10 * tolerance(ob))
    for what, m, k in (("mean", ob.mean, 0), ("var", ob.var, 1)):
        ok, g = r.call(what, getattr(d, what))
        if not ok:
            continue
        w = float(Fraction(*m["v"])) if m["t"] == "f" else math.inf if m["t"] == "i" else nm[k]
        if w is None:
            continue
        if not math.isfinite(w):
            r.expect(what, missing(g), lambda: "%s = %r, does not exist" % (what, g))
        else:
            scale = max(abs(w), ob.unit if k == 0 else ob.unit ** 2)
            r.close(what, g, w, tol * scale, what)
    ok, g = r.call("range", d.range)
    if ok:
        hi = ob.hi
        if L.discrete:      # the declared range may hold values of probability zero
            r.expect("range", g[0] <= ob.lo and g[1] >= L.atoms(1e-12)[-1][0] and (g[0], g[1]) == (float(g[0]), float(g[1])), lambda: "range %s" % (g,))
        else:
            for a, b in zip(g, (ob.lo, hi)):
                r.expect("range", a == b or abs(a - b) <= 1e-12 * ob.unit or abs(a - b) <= 1e-14 * abs(b), lambda: "range %s, support %s" % (g, (ob.lo, ob.hi)))
    for what in ("__str__", "getName", "__repr__"):
        ok, g = r.call("text", getattr(d, what))
        if ok:
            r.expect("text", isinstance(g, str) and g != "", "%s gives %r" % (what, g))
    if not L.discrete:
        for p in (0.01, 0.5, 0.9):
            ok, x = r.call("quantile", d.quantile, p)
            if ok:
                if abs(float(x) - L.ppf(p)) > 1e-11 * ob.unit:      # next to a pole the quantile is resolved to absolute precision only
                    r.close("quantile", L.cdf(float(x)), p, 1e-7 + 10 * tolerance(ob), "cdf of quantile(%g) = %.12g" % (p, float(x)))
    if not draw:
        return
    ok, x = r.call("rand", d.rand)
    if ok:
        r.expect("rand", np.size(x) == 1 and ob.lo <= float(np.asarray(x).reshape(-1)[0]) <= ob.hi, lambda: "rand() = %r" % (x,))
    n = N // 8 if ob.name.startswith("Fun") else N      # sampled through the quantile function, slowly
    ks = KS * math.sqrt(N / float(n))
    ok, x = r.call("rand", d.rand, n)
    if ok and r.expect("rand", np.shape(x) == (n,), lambda: "rand(%d) has shape %s" % (n, np.shape(x))):
        x = np.sort(np.asarray(x, float))
        r.expect("rand", not np.isnan(x).any() and x[0] >= ob.lo - 1e-9 * ob.unit and x[-1] <= ob.hi + 1e-9 * ob.unit, lambda: "samples from %r to %r, support %r" % (x[0], x[-1], (ob.lo, ob.hi)))
        grid = ob.pts if not L.discrete else [a for a, m in L.atoms(1e-9)]
        grid = list(grid) + ([] if L.discrete else [L.ppf(p) for p in np.arange(0.05, 1, 0.1)])
        for g in grid:
            e = np.searchsorted(x, g, side="right") / float(n)
            r.expect("rand", abs(e - L.cdf(g)) <= ks, lambda: "empirical cdf(%.6g) = %.5f, exact %.5f" % (g, e, L.cdf(g)))


def one(v):
    r = core.Result()
    ob = Obj(v["o"])
    ok, d = r.call("build", make, ob.name, ob.q)
    if ok:
        law(r, d, ob)
        rest(r, d, ob)
    return r


def two(v):
    r = core.Result()
    obs = [Obj(o) for o in v["os"]]
    ds = []
    for w, i in v["hist"]:
        if w == "new":
            ok, d = r.call("build", make, obs[i - 1].name, obs[i - 1].q)
            if not ok:
                return r
            ds.append(d)
        elif w == "law":
            law(r, ds[i - 1], obs[i - 1])
        else:
            rest(r, ds[i - 1], obs[i - 1], False)
    for d, ob in zip(ds, obs):
        r.expect("names", str(d) != str(ds[0]) or d is ds[0] or ob.name == "Const", "two instances called %s" % d)
        law(r, d, ob)
    r.expect("distinct", len({id(d.get_piecewise_pdf()) for d in ds}) == len(ds), "instances share their density object")
    return r


def label(o):
    return "%s(%s)" % (o["n"], ",".join(str(Fraction(*x)) for x in o["q"]))


def run(ctx):
    full = ctx.tier == "thorough"
    recs = ctx.tlc_many([("Catalogue", "C07_q1")] + ([("Catalogue", "C07_t1")] if full else []))
    ones, twos = {}, {}
    for v in recs:
        if v["kind"] == "one":
            v["key"] = label(v["o"])
            ones[v["key"]] = v
        else:
            v["key"] = " & ".join(label(o) for o in v["os"]) + " : " + " ".join("%s%d" % (w[0], i) for w, i in v["hist"])
            twos.setdefault(v["os"][0]["n"], []).append(v)
    ctx.replay(list(ones.values()), one, label="documented law", limit=120)
    pick = []
    for n, vs in sorted(twos.items()):
        vs.sort(key=lambda v: v["key"])
        # prefer histories that ask about one instance both before and after the other one appears
        inter = [v for v in vs if v["hist"][-1][0] == "law" and [h[1] for h in v["hist"] if h[0] != "new"] in ([1, 1], [1, 2], [2, 1])]
        k = 24 if full else 1 if n.startswith("Noncentral") else 3
        step = max(1, len(inter) // k)
        pick += inter[::step][:k]
    ctx.replay(pick, two, label="two instances of one family")
