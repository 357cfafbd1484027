"""C06: every description and summary of a variable is that of its exact law (spec/Summary.tla)."""
import math
import numpy as np
from fractions import Fraction as Fr
from .. import calc, core
from . import gridcalc
from .gridcalc import LEAVES

LEVELS = [0.0, 0.001, 0.025, 0.05, 0.1, 1 / 6., 0.25, 1 / 3., 0.4, 0.5, 0.6, 2 / 3., 0.75, 5 / 6., 0.9, 0.95, 0.975, 0.999, 1.0]


class Law(object):
    """the specification's law, at x -> s*x + t"""

    def __init__(self, obs, s=1.0, t=0.0):
        f = lambda q: float(calc.fr(q))
        self.lo, self.s, self.t = obs["lo"], s, t
        self.F, self.L = [f(x) for x in obs["F"]], [f(x) for x in obs["L"]]
        self.grid = [(self.lo + n) / 4.0 for n in range(len(self.F))]
        self.d = [(f(a) / s, f(b) / s) for a, b in obs["d"]]
        self.pan = [(self.at(self.grid[2 * n]), self.at(self.grid[2 * n + 2]), a, b) for n, (a, b) in enumerate(self.d)]
        self.atoms = [(self.at(g), a - b) for g, a, b in zip(self.grid, self.F, self.L) if a != b]
        raw = [Fr(1)] + [calc.fr(x) / Fr(2) ** (k + 1) for k, x in enumerate(obs["m"])]
        S, T = Fr(s), Fr(t)
        self.raw = [sum(Fr(math.comb(k, j)) * S ** j * raw[j] * T ** (k - j) for j in range(k + 1)) for k in range(5)]
        self.sup = (self.at(obs["sup"][0] / 4.0), self.at(obs["sup"][1] / 4.0))

    def at(self, x):
        return self.s * x + self.t

    def central(self, k, c=None):
        c = self.raw[1] if c is None else Fr(c)
        return float(sum(Fr(math.comb(k, j)) * self.raw[j] * (-c) ** (k - j) for j in range(k + 1)))

    def _cum(self, x, left):
        x = (x - self.t) / self.s
        if x < self.grid[0] - 1e-12:
            return 0.0
        if x > self.grid[-1] + 1e-12:
            return 1.0
        k = (x - self.grid[0]) * 4
        n = int(round(k))
        if abs(k - n) < 1e-9:
            return self.L[n] if left else self.F[n]
        n = 2 * (int(math.floor(k)) // 2)
        u = (k - n) / 2
        f0, f1, f2 = self.F[n], self.F[n + 1], self.L[n + 2]
        return f0 + u * (-3 * f0 + 4 * f1 - f2) + u * u * (2 * f0 - 4 * f1 + 2 * f2)

    def cdf(self, x):
        return self._cum(x, False)

    def left(self, x):
        return self._cum(x, True)

    def is_quantile(self, q, p, tol=1e-8):
        """F(q-) <= p <= F(q), up to tolerances in q and p"""
        if math.isnan(q):
            return False
        if q == -math.inf:
            return p <= tol
        if q == math.inf:
            return p >= 1 - tol
        d = tol * max(self.s, abs(q))
        return self.left(q - d) - tol <= p <= self.cdf(q + d) + tol

    def is_mad(self, m, v, tol=1e-8):
        d = tol * max(self.s, abs(m), abs(v))
        return self.left(m + v - d) - self.cdf(m - v + d) - tol <= 0.5 <= self.cdf(m + v + d) - self.left(m - v - d) + tol

    def pure(self):
        """'c' no atoms, 'd' only atoms, 'm' both"""
        c = any(a or b for a, b in self.d)
        return "m" if c and self.atoms else "c" if c else "d"

    def entropy(self):
        tot = -sum(p * math.log(p) for _, p in self.atoms)
        F = lambda y: 0.0 if y <= 0 else y * y / 2 * math.log(y) - y * y / 4
        for a, b, y0, y1 in self.pan:
            if abs(y1 - y0) <= 1e-14 * (abs(y0) + abs(y1)):
                tot -= (b - a) * y0 * math.log(y0) if y0 > 0 else 0.0
            else:
                tot -= (b - a) * (F(y1) - F(y0)) / (y1 - y0)
        return tot


def kl(A, B):
    """sum over atoms and panels; inf when A is not carried by B, None when not defined pointwise"""
    from scipy.integrate import quad
    tot = 0.0
    bm = dict((round(x, 9), p) for x, p in B.atoms)
    for x, p in A.atoms:
        q = bm.get(round(x, 9))
        if not q:
            return math.inf
        tot += p * math.log(p / q)
    bp = dict((round(a, 9), (y0, y1)) for a, b, y0, y1 in B.pan)
    for a, b, y0, y1 in A.pan:
        if not (y0 or y1):
            continue
        z0, z1 = bp.get(round(a, 9), (0.0, 0.0))
        if not (z0 or z1):
            return math.inf
        if y0 == y1 and z0 == z1:
            tot += (b - a) * y0 * math.log(y0 / z0)
        else:
            def f(u):
                y, z = y0 + u * (y1 - y0), z0 + u * (z1 - z0)
                return 0.0 if y <= 0 else y * math.log(y / z)
            tot += (b - a) * quad(f, 0, 1, epsabs=1e-12, epsrel=1e-12, limit=200)[0]
    return tot


def arr(r, clause, fun, xs, want, tol, what):
    ok, c = r.call(clause, fun, np.array(xs))
    if not ok:
        return
    c = np.asarray(c, float)
    r.n += len(xs)
    if c.shape != (len(xs),):
        r.expect(clause, False, "%s: shape %s for %d points" % (what, c.shape, len(xs)))
        return
    err = np.abs(c - want)
    err[np.isnan(err)] = np.inf
    k = int(np.argmax(err))
    if not err[k] <= tol:
        r.expect(clause, False, "%s(%.12g) = %.15g, exact %.15g" % (what, xs[k], c[k], want[k]))


def replay_law(v):
    r = core.Result()
    s, t = calc.PRES[v["pres"]]
    toks = v["e"]
    if t and any(x.partition(":")[0] in gridcalc.NOSHIFT for x in toks):
        t = 0.0
    f = lambda x: s * float(x) + t
    d = calc.evaluate(toks, lambda n, k: calc.build_leaf(LEAVES[n], s, t, v["cons"]), num=f)
    W = Law(v["obs"], s, t)
    kind = W.pure()
    tol = 2e-9
    # --- cumulative probabilities: everywhere, in order, scalar = array, complements
    ax = [a for a, _ in W.atoms]
    xs = sorted([f(Fr(W.lo - 4, 4) + Fr(k, 8)) for k in range(2 * len(W.F) + 14)])
    far = W.sup[1] - W.sup[0] + s
    xs = [xs[0] - 7 * far] + xs + [xs[-1] + 9 * far]
    exact_atoms = v["cons"] != 2 and v["pres"] in ("unit", "scale1e3", "shift10", "shift-3")
    if not exact_atoms:
        xs = [x for x in xs if not any(abs(x - a) < 1e-6 * s for a in ax)]
    Fx = [W.cdf(x) for x in xs]
    arr(r, "cdf", d.cdf, xs, Fx, tol, "cdf")
    arr(r, "ccdf", d.ccdf, xs, [1 - y for y in Fx], tol, "ccdf")
    if v["pres"] == "unit":       # integer arguments
        ints = [x for x in range(int(math.floor(xs[1])), int(math.ceil(xs[-2])) + 1) if exact_atoms or x not in ax]
        ok, c = r.call("cdf-int", d.cdf, np.array(ints))
        if ok:
            r.expect("cdf-int", np.max(np.abs(np.asarray(c, float) - [W.cdf(float(x)) for x in ints])) <= tol, "cdf of an integer array %s: %s" % (ints, c))
        ok, c = r.call("pdf-int", d.pdf, np.array(ints))
        ok2, c2 = r.call("pdf-int", d.pdf, np.array(ints, float))
        if ok and ok2:
            r.expect("pdf-int", np.allclose(np.asarray(c, float), c2, rtol=1e-12, atol=1e-12), "pdf of an integer array %s: %s, as floats %s" % (ints, c, c2))
    for k in range(v["rot"], len(xs), 5):
        ok, y = r.call("cdf-scalar", d.cdf, xs[k])
        if ok:
            r.close("cdf-scalar", y, Fx[k], tol, "cdf(%.12g)" % xs[k])
        ok, y = r.call("ccdf-scalar", d.ccdf, xs[k])
        if ok:
            r.close("ccdf-scalar", y, 1 - Fx[k], tol, "ccdf(%.12g)" % xs[k])
        ok, y = r.call("ccdf-value", d.ccdf_value, xs[k])
        if ok:
            r.close("ccdf-value", y, 1 - Fx[k], tol, "ccdf_value(%.12g)" % xs[k])
    # --- density inside every panel, zero outside
    px, py = [], []
    for a, b, y0, y1 in W.pan:
        for u in (0.125, 0.5, 0.8125):
            x = a + u * (b - a)
            if not any(abs(x - g) < 1e-9 * s for g in ax):
                px.append(x)
                py.append(y0 + u * (y1 - y0))
    px += [W.sup[0] - 0.7 * s, W.sup[1] + 0.3 * s]
    py += [0.0, 0.0]
    arr(r, "pdf", d.pdf, px, py, 1e-8 / s, "pdf")
    for k in range(v["rot"] % 3, len(px), 3):
        ok, y = r.call("pdf-scalar", d.pdf, px[k])
        if ok:
            r.close("pdf-scalar", y, py[k], 1e-8 / s, "pdf(%.12g)" % px[k])
    ok, y = r.call("call", d, px[0])
    if ok:
        r.close("call", y, py[0], 1e-8 / s, "d(x)")
    # --- quantiles
    ok, q = r.call("quantile-array", d.quantile, np.array(LEVELS))
    if ok:
        for p, x in zip(LEVELS, q):
            r.expect("quantile-array", W.is_quantile(float(x), p), lambda: "quantile(%.12g) = %.12g; F(q-) = %.12g, F(q) = %.12g" % (p, x, W.left(x), W.cdf(x)))
    for p in LEVELS[v["rot"] % 4::4] + [0.5]:
        ok, x = r.call("quantile", d.quantile, p)
        if ok:
            r.expect("quantile", W.is_quantile(float(x), p), lambda: "quantile(%.12g) = %.12g; F(q-) = %.12g, F(q) = %.12g" % (p, x, W.left(x), W.cdf(x)))
    ok, m = r.call("median", d.median)
    if ok:
        r.expect("median", W.is_quantile(float(m), 0.5), "median = %.12g" % m)
        ok, x = r.call("medianad", d.medianad)
        if ok:
            r.expect("medianad", x >= 0 and W.is_mad(float(m), float(x)), lambda: "medianad = %.12g about %.12g: P(|X-m|<v) = %.12g, P(|X-m|<=v) = %.12g" % (
                x, m, W.left(m + x) - W.cdf(m - x), W.cdf(m + x) - W.left(m - x)))
    for name, fun, p, q in (("interval", d.interval, 0.05, 0.95), ("interval", lambda: d.interval(0.5), 0.25, 0.75), ("interval", lambda: d.interval(p=0.95), 0.025, 0.975),
                            ("ci", d.ci, 0.025, 0.975), ("ci", lambda: d.ci(0.2), 0.1, 0.9),
                            ("interval", lambda: d.interval(0.998), 0.001, 0.999), ("interval", lambda: d.interval(1 / 64.), 63 / 128., 65 / 128.),
                            ("ci", lambda: d.ci(1 / 512.), 1 / 1024., 1023 / 1024.), ("ci", lambda: d.ci(15 / 16.), 15 / 32., 17 / 32.)):
        if fun == d.interval:
            p, q = 0.025, 0.975
        ok, x = r.call(name, fun)
        if ok:
            r.expect(name, len(x) == 2 and W.is_quantile(float(x[0]), p) and W.is_quantile(float(x[1]), q), lambda: "%s for %g, %g: %s" % (name, p, q, x))
    for lev in (0.025, 0.25, 1 / 512., 0.45):
        ok, x = r.call("iqrange", d.iqrange, lev)
        ok1, a = r.call("iqrange", d.quantile, lev)
        ok2, b = r.call("iqrange", d.quantile, 1 - lev)
        if ok and ok1 and ok2:
            r.close("iqrange", x, b - a, 1e-9 * s, "iqrange(%g)" % lev)
    # --- moments
    u = max(s, abs(float(W.raw[1])))
    var = W.central(2)
    for name, fun, want, sc in (("mean", d.mean, float(W.raw[1]), u), ("var", d.var, var, u * u), ("std", d.std, math.sqrt(var), None)):
        ok, x = r.call(name, fun)
        if ok:
            if sc is None:
                r.close(name, float(x) ** 2, var, 1e-8 * u * u, "std squared")
            else:
                r.close(name, x, want, 2e-9 * sc, name)
    for k in range(5):
        ok, x = r.call("moment", d.moment, k)
        if ok:
            r.close("moment", x, W.central(k), 1e-8 * u ** k * max(1, 2 ** k), "moment(%d)" % k)
        ok, x = r.call("moment", d.moment, k, 0)
        if ok:
            r.close("moment", x, float(W.raw[k]), 1e-8 * max(u, abs(W.sup[0]), abs(W.sup[1])) ** k, "moment(%d, 0)" % k)
    ok, x = r.call("moment", d.moment, 3, f(Fr(1, 2)))
    if ok:
        r.close("moment", x, W.central(3, f(Fr(1, 2))), 1e-8 * (8 * max(u, abs(W.sup[0]), abs(W.sup[1]))) ** 3, "moment(3, c)")
    if len(W.atoms) != 1 or kind != "d":
        sk, ku = W.central(3) / var ** 1.5, W.central(4) / var ** 2
        k = (u / math.sqrt(var)) ** 4
        ok, x = r.call("skewness", d.skewness)
        if ok:
            r.close("skewness", x, sk, 1e-8 * k, "skewness")
        ok, x = r.call("kurtosis", d.kurtosis)
        if ok:
            r.close("kurtosis", x, ku, 1e-8 * k, "kurtosis")
    else:
        for g in (d.skewness, d.kurtosis):
            ok, x = r.call("skewness", g)
            r.expect("skewness", not ok or d.var() != 0 or not np.isfinite(x), "of a constant: %r" % (x,))
    ok, x = r.call("meanf", d.meanf, lambda y: y ** 3 - 2 * y)
    if ok:
        r.close("meanf", x, float(W.raw[3] - 2 * W.raw[1]), 1e-8 * max(1, u, abs(W.sup[0]), abs(W.sup[1])) ** 3, "E(X^3 - 2X)")
    # --- range, mode, entropy
    for name, fun in (("range", lambda: d.get_piecewise_pdf().range()), ("range_", d.range_)):
        ok, x = r.call(name, fun)
        if ok:
            r.expect(name, abs(x[0] - W.sup[0]) <= 1e-9 * u and abs(x[1] - W.sup[1]) <= 1e-9 * u, lambda: "%s %s, support %s" % (name, x, W.sup))
    ok, nn = r.call("is_nonneg", d.is_nonneg)
    if ok:
        r.expect("is_nonneg", not (nn and W.sup[0] < -1e-9 * s) and not (not nn and W.sup[0] > 1e-9 * s), "is_nonneg = %r, support %s" % (nn, W.sup))
    if kind != "m":
        top = max([max(a, b) for a, b in W.d] if kind == "c" else [p for _, p in W.atoms])
        ok, x = r.call("mode", d.mode)
        if ok:
            if kind == "d":
                r.expect("mode", any(abs(x - a) <= 1e-9 * u and p >= top - 1e-9 for a, p in W.atoms), lambda: "mode %.12g of atoms %s" % (x, W.atoms))
            else:
                near = [y0 + (min(max(x, a), b) - a) / (b - a) * (y1 - y0) for a, b, y0, y1 in W.pan if a - 1e-9 * u <= x <= b + 1e-9 * u]
                r.expect("mode", near and max(near) >= top * (1 - 1e-5), lambda: "mode %.12g has density %s, the maximum is %.12g" % (x, near, top))
        ok, x = r.call("entropy", d.entropy)
        if ok:
            r.close("entropy", x, W.entropy(), 1e-8 * max(1, abs(math.log(s))), "entropy")
    # --- the collected summary is that of the single queries
    if v["rot"] % 2 == 0:
        ok, sm = r.call("summary", d.summary_map)
        if ok:
            for key, fun in (("mean", d.mean), ("var", d.var), ("std", d.std), ("median", d.median), ("medianad", d.medianad),
                             ("iqrange(0.025)", d.iqrange), ("interval(0.95)", d.interval), ("mode", d.mode), ("entropy", d.entropy),
                             ("range", d.range_), ("int_err", d.int_error), ("skewness", d.skewness), ("kurtosis", d.kurtosis)):
                ok1, a = r.call("summary", fun)
                if ok1:
                    r.expect("summary", key in sm and np.allclose(np.asarray(sm[key], float), np.asarray(a, float), rtol=1e-12, atol=1e-12, equal_nan=True),
                             lambda: "summary_map()[%r] = %r, asked directly %r" % (key, sm.get(key), a))
            r.close("summary", sm.get("int_err", 1), 0.0, tol, "int_err")
        ok, five = r.call("five_number_summary", d.five_number_summary)
        if ok:
            lv = [0, 0.025, 0.5, 0.975, 1]
            r.expect("five_number_summary", len(five) == 5 and all(W.is_quantile(float(x), p) for x, p in zip(five[1:4], lv[1:4]))
                     and five[0] <= W.sup[0] + 1e-9 * u and five[4] >= W.sup[1] - 1e-9 * u, lambda: "five numbers %s, support %s" % (five, W.sup))
    return r


def replay_pair(v):
    r = core.Result()
    s, t = calc.PRES[v["pres"]]
    da = calc.evaluate(v["e"], lambda n, k: calc.build_leaf(LEAVES[n], s, t, v["cons"]))
    db = calc.evaluate(v["f"], lambda n, k: calc.build_leaf(LEAVES[n], s, t, (v["cons"] + 1) % 4 if v["cons"] else 0))
    A, B = Law(v["A"], s, t), Law(v["B"], s, t)
    if s == 1.0 or (A.pure() == "d" and B.pure() == "d"):
        want = float(calc.fr(v["l2"])) ** 0.5
    elif A.pure() == "c" and B.pure() == "c":
        want = (float(calc.fr(v["l2"])) / s) ** 0.5
    else:
        want = None
    if want is not None:
        ok, x = r.call("L2", da.L2_dist, db)
        if ok:
            r.close("L2", x, want, 2e-8 / math.sqrt(s) + (3e-5 if want < 1e-3 else 0), "L2 distance")
    w = kl(A, B)
    ok, x = r.call("KL", da.KL_dist, db)
    if ok:
        if w == math.inf:
            r.expect("KL-infinite", x == math.inf, "KL distance %r of a law not carried by the other" % (x,))
        else:
            r.close("KL", x, w, 1e-8, "KL distance")
    return r


def replay(v):
    return replay_pair(v) if v["kind"] == "pair" else replay_law(v)


def run(ctx):
    cfgs = ["C06_q1", "C06_q2"] + (["C06_t1", "C06_t2"] if ctx.tier == "thorough" else [])
    recs = ctx.tlc_many([("MC_Summary", c) for c in cfgs])
    for r in recs:
        if r["kind"] == "leaf":
            LEAVES[r["name"]] = r["items"]
    vecs, seen = [], set()
    for r in recs:
        if r["kind"] == "leaf":
            continue
        name = " ".join(r["e"]) + (" ~ " + " ".join(r["f"]) if r["kind"] == "pair" else "")
        if name in seen:
            continue
        seen.add(name)
        k = len(seen)
        per = 1 if r["kind"] == "pair" else 2 if ctx.tier == "quick" else 5
        for j, (pres, cons) in enumerate([("unit", k % 4)] + [gridcalc.ROT[(k + i) % len(gridcalc.ROT)] for i in range(per)]):
            vecs.append(dict(r, pres=pres, cons=cons, rot=k + j, key="%s @%s/%d" % (name, pres, cons)))
    ctx.replay(vecs, replay, label="summaries of a variable with an exact law")
