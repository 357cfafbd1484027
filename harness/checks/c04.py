"""C04: functions of one variable (spec/Transform.tla)."""
import math
import numpy as np
from fractions import Fraction
from .. import calc, core

LEAVES = {}
# accuracy of a density with a root singularity of order k away from zero: doubles resolve it to eps^(1/k)
TOL = {1: 3e-8, 2: 2e-7, 3: 5e-5, 4: 5e-4, 6: 1e-2}

# one step of the chain of real functions emitted by the specification
STEP = {
    "mul": lambda x, c: x * c, "add": lambda x, c: x + c, "inv": lambda x, c: 1 / x, "sqr": lambda x, c: x * x,
    "exp": lambda x, c: np.exp(x), "log": lambda x, c: np.log(x), "pow": lambda x, c: x ** c, "rpow": lambda x, c: c ** x,
    "atan": lambda x, c: np.arctan(x), "tanh": lambda x, c: np.tanh(x),
    "sigmoid": lambda x, c: 1 / (1 + np.exp(-x)), "tan": lambda x, c: np.tan(x)}
# the expression's own tokens as real functions (means by quadrature over the leaf)
TOK = {
    "neg": lambda x, c: -x, "abs": lambda x, c: np.abs(x), "addc": lambda x, c: x + c, "raddc": lambda x, c: x + c,
    "subc": lambda x, c: x - c, "rsubc": lambda x, c: c - x, "mulc": lambda x, c: x * c, "rmulc": lambda x, c: x * c,
    "divc": lambda x, c: x / c, "inv": lambda x, c: 1 / x, "rdivc": lambda x, c: c / x, "sqr": lambda x, c: x * x,
    "powc": lambda x, c: x ** c, "exp": STEP["exp"], "rpow": STEP["rpow"], "log": STEP["log"],
    "sqrt": lambda x, c: np.sqrt(x), "atan": STEP["atan"], "tanh": STEP["tanh"], "sigmoid": STEP["sigmoid"],
    "tan": STEP["tan"], "sign": lambda x, c: np.sign(x), "sin": lambda x, c: np.sin(x), "cos": lambda x, c: np.cos(x)}
GLX, GLW = np.polynomial.legendre.leggauss(24)


def mean_of(items, toks):
    """E g(X) over the leaf law, None unless g is smooth and moderate there"""
    steps = [(n, float(Fraction(a)) if a else None) for n, _, a in (t.partition(":") for t in toks)]

    def g(x):
        for n, c in steps:
            x = TOK[n](x, c)
        return x
    tot, W = 0.0, float(sum(w for _, _, w in items))
    for m, i, w in items:
        if m == 0:
            v = float(g(np.float64(i)))
            if not math.isfinite(v) or abs(v) > 1e4:
                return None
            tot += w * v
            continue
        parts = []
        for k in (1, 2):        # two resolutions must agree: only then is the quadrature trusted
            h = 0.5 / k
            acc = 0.0
            for j in range(k * m):
                x = i + h + 2 * h * j + h * GLX
                dens = 1.0 if m == 1 else np.minimum(x - i, i + 2 - x)
                acc += h * float(np.sum(GLW * g(x) * dens))
            parts.append(acc)
        ends = g(np.array([i + 1e-9, i + m - 1e-9, i + m / 2.0, i + 0.5, i + m - 0.5]))
        if not np.all(np.isfinite(parts)) or abs(parts[0] - parts[1]) > 1e-11 * max(1, abs(parts[0])) or np.max(np.abs(ends)) > 1e3:
            return None
        tot += w * parts[1]
    return tot / W


def observe(r, d, pts, atoms, mean, tol):
    ok, f = r.call("law", d.get_piecewise_pdf)
    if not ok:
        return
    ok, v = r.call("total-mass", f.integrate)
    if ok:
        r.close("total-mass", v, 1.0, tol, "integral of the density")
    got = sorted(calc.diracs(d))
    want = sorted(atoms)
    r.expect("atoms", len(got) == len(want) and all(abs(g[0] - w[0]) <= 1e-9 * max(1, abs(w[0])) and abs(g[1] - w[1]) <= max(tol, 1e-10)
                                                    for g, w in zip(got, want)), lambda: "got %s want %s" % (got[:6], want[:6]))
    bad = set(a for a, _ in atoms)
    P = [(x, F) for x, F in pts if math.isfinite(x) and abs(x) < 1e12 and not any(abs(x - a) <= 1e-9 * max(1, abs(a)) for a in bad)]
    if P:
        xs = np.array([x for x, _ in P])
        ok, c = r.call("cdf", d.cdf, xs)
        if ok:
            c = np.asarray(c, float)
            r.n += len(xs)
            k = int(np.argmax(np.where(np.isnan(c), np.inf, np.abs(c - [F for _, F in P]))))
            if not abs(c[k] - P[k][1]) <= tol:
                r.expect("cdf", False, "cdf(%.12g) = %.15g, exact %.15g" % (P[k][0], c[k], P[k][1]))
        x, F = P[len(P) // 2]
        ok, v = r.call("cdf-scalar", d.cdf, x)
        if ok:
            r.close("cdf-scalar", v, F, tol, "cdf(%.12g)" % x)
        ok, v = r.call("ccdf", d.ccdf, x)
        if ok:
            r.close("ccdf", v, 1 - F, tol, "ccdf(%.12g)" % x)
    if mean is not None:
        ok, v = r.call("mean", d.mean)
        if ok:
            r.close("mean", v, mean, 10 * tol * max(1, abs(mean)), "mean")


def replay_fun(v):
    r = core.Result()
    toks = v["e"]
    d = calc.evaluate(toks, lambda n, k: calc.build_leaf(LEAVES[n], 1.0, 0.0, v["cons"]))
    pts, atoms = [], []
    for q, F, L in v["p"]:
        x = np.float64(calc.fr(q))
        for name, c in v["ch"]:
            x = STEP[name](x, float(calc.fr(c)))
        F, L = float(calc.fr(F)), float(calc.fr(L))
        if F != L:
            atoms.append((float(x), F - L))
        pts.append((float(x), F))
    if pts and not v["ch"]:         # just outside the support, where it ends
        L0, Fn = calc.fr(v["p"][0][2]), calc.fr(v["p"][-1][1])
        pts = ([(pts[0][0] - 1, 0.0)] if L0 == 0 else []) + pts + ([(pts[-1][0] + 1, 1.0)] if Fn == 1 else [])
    observe(r, d, pts, atoms, mean_of(LEAVES[toks[0]], toks[1:]), TOL.get(v["k"], 5e-2))
    return r


def replay_trig(v):
    r = core.Result()
    toks = v["e"] + [v["fun"]]
    d = calc.evaluate(toks, lambda n, k: calc.build_leaf(LEAVES[n], 1.0, 0.0, v["cons"]))
    F = [float(calc.fr(x)) for x in v["F"]]
    L = [float(calc.fr(x)) for x in v["L"]]
    grid = [(v["lo"] + n) / 4.0 for n in range(len(F))]

    def cum(x, left=False):
        """F(x) or P(X < x) from the tabulated piecewise linear law"""
        if x < grid[0]:
            return 0.0
        if x > grid[-1]:
            return 1.0
        k = (x - grid[0]) * 4
        n = int(round(k))
        if abs(k - n) < 1e-12:
            return L[n] if left else F[n]
        n = 2 * (int(math.floor(k)) // 2)       # quadratic on each half-unit panel
        u = (k - n) / 2
        f0, f1, f2 = F[n], F[n + 1], L[n + 2]
        return f0 + u * (-3 * f0 + 4 * f1 - f2) + u * u * (2 * f0 - 4 * f1 + 2 * f2)
    pts, atoms = [], {}
    if v["fun"] == "sin":
        for q in v["sq"]:
            q = float(calc.fr(q))
            lo, hi = (q, math.pi - q) if q <= 1.5 else (math.pi - q, q)
            pts.append((math.sin(q), cum(lo) + 1 - cum(hi, True)))
        f = math.sin
    else:
        for q in v["cq"]:
            q = float(calc.fr(q))
            lo, hi = (q, 2 * math.pi - q) if q <= 3 else (2 * math.pi - q, q)
            pts.append((math.cos(q), cum(hi) - cum(lo, True)))
        f = math.cos
    for g, a, b in zip(grid, F, L):
        if a != b:
            atoms[f(g)] = atoms.get(f(g), 0.0) + a - b
    observe(r, d, pts + [(-1.5, 0.0), (1.5, 1.0)], list(atoms.items()), mean_of(LEAVES[toks[0]], toks[1:]), 2e-7)
    return r


def replay(v):
    return replay_trig(v) if v["kind"] == "trig" else replay_fun(v)


def run(ctx):
    cfgs = ["C04_q1", "C04_q2", "C04_q3"] + (["C04_t2", "C04_t3"] if ctx.tier == "thorough" else [])
    recs = ctx.tlc_many([("MC_Transform", c) for c in cfgs])
    vecs, seen = [], set()
    for r in recs:
        if r["kind"] == "leaf":
            LEAVES[r["name"]] = r["items"]
    for r in recs:
        if r["kind"] == "fun":
            name = " ".join(r["e"])
            if name not in seen:
                seen.add(name)
                c = len(seen) % 4
                vecs.append(dict(r, cons=c, key="%s /%d" % (name, c)))
        elif r["kind"] == "trig":
            for fun in ("sin", "cos"):
                name = " ".join(r["e"] + [fun])
                if r[fun] and name not in seen:
                    seen.add(name)
                    c = len(seen) % 4
                    vecs.append(dict(r, fun=fun, cons=c, key="%s /%d" % (name, c)))
    ctx.replay(vecs, replay, label="function of a variable with its exact law")
