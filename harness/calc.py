"""Building pacal variables from specification tokens and comparing laws."""
from fractions import Fraction
import math

import numpy as np

from .core import Result, MachineryError


def fr(r):
    """<<n, d>> from the specification"""
    return Fraction(r[0], r[1])


# -------------------------------------------------------------------------
# presentations: how a lattice law is laid out on the real line
# -------------------------------------------------------------------------
# (name, scale, shift of every leaf)
PRES = {
    "unit": (1.0, 0.0),
    "scale.3": (0.3, 0.0),
    "scale1e3": (1000.0, 0.0),
    "scale1e-3": (1.0e-3, 0.0),
    "scale7th": (1.0 / 7, 0.0),
    "shift10": (1.0, 10.5),
    "shift-3": (1.0, -3.25),
    "s.3t.1": (0.3, 0.1),
}


def runs(items):
    """merge adjacent equal uniform cells: -> [(a, b, weight)], [(atom, weight)]"""
    cells = sorted((i, w) for m, i, w in items if m == 1)
    atoms = sorted((i, w) for m, i, w in items if m == 0)
    out = []
    for i, w in cells:
        if out and out[-1][1] == i and out[-1][3] == w:
            out[-1] = (out[-1][0], i + 1, out[-1][2] + w, w)
        else:
            out.append((i, i + 1, w, w))
    return [(a, b, w) for a, b, w, _ in out], atoms


def build_leaf(items, s=1.0, t=0.0, cons=0):
    """A fresh pacal variable with the law of items at x -> s*x + t.

    cons selects one of several constructions of the same law."""
    import pacal as P
    items = [tuple(x) for x in items]
    rr, atoms = runs(items)
    W = float(sum(w for _, _, w in items))
    f = lambda x: s * x + t
    tris = [(i, w) for m, i, w in items if m == 2]
    items = [x for x in items if x[0] != 2] if cons != 2 else items
    if cons == 1:        # one component per unit cell / atom, in reverse order
        comps = [(w / W, P.UniformDistr(f(i), f(i + 1)) if m == 1 else P.ConstDistr(f(i))) for m, i, w in reversed(items)]
    elif cons == 2:      # affine image of a canonical object
        base = build_leaf(items, 1.0, 0.0, 0)
        if s == 1.0 and t == 0.0:
            # halve and double again: exact in floating point
            return (build_leaf(items, 0.5, 0.0, 0)) * 2
        d = base if s == 1.0 else base * s
        return d if t == 0.0 else d + t
    elif cons == 3:      # user supplied density where there is one
        cells = sorted((i, w) for m, i, w in items if m == 1)
        if len(atoms) > 1:
            wa = float(sum(w for _, w in atoms))
            comps = [(wa / W, P.DiscreteDistr(xi=[f(i) for i, _ in atoms[1:] + atoms[:1]], pi=[w / wa for _, w in atoms[1:] + atoms[:1]]))]    # values out of order
        else:
            comps = [(w / W, P.ConstDistr(f(i))) for i, w in atoms]
        if cells:
            wc = float(sum(w for _, w in cells))
            # one density component per contiguous block
            blocks = []
            for i, w in cells:
                if blocks and blocks[-1][-1] == (i - 1, w):      # one per run of equal height: no jump at an inner break point
                    blocks[-1].append((i, w))
                else:
                    blocks.append([(i, w)])
            for b in blocks:
                wb = float(sum(w for _, w in b))
                br = [f(b[0][0])] + [f(i + 1) for i, _ in b]
                comps.append((wb / W, P.FunDistr(_StepDensity(br, [w / wb / s for _, w in b]), br)))
    else:
        comps = [(w / W, P.UniformDistr(f(a), f(b))) for a, b, w in rr]
        if len(atoms) == 1:
            comps.append((atoms[0][1] / W, P.ConstDistr(f(atoms[0][0]))))
        elif atoms:
            wa = float(sum(w for _, w in atoms))
            comps.append((wa / W, P.DiscreteDistr(xi=[f(i) for i, _ in atoms], pi=[w / wa for _, w in atoms])))
    for i, w in tris:
        if cons == 3:
            br = [f(i), f(i + 1), f(i + 2)]
            comps.append((w / W, P.FunDistr(_Triangle(*br), br)))
        elif cons == 1:
            comps.append((w / W, P.UniformDistr(f(i), f(i + 1)) + P.UniformDistr(0, s)))
        else:
            comps.append((w / W, P.TrapezoidalDistr(f(i), f(i + 1), f(i + 1), f(i + 2))))
    if len(comps) == 1:
        return comps[0][1]
    return P.MixDistr([p for p, _ in comps], [d for _, d in comps])


class _Triangle(object):
    """triangular density, continued linearly outside its support"""

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __call__(self, x):
        x = np.asarray(x, float)
        h = 1.0 / (self.b - self.a) / (self.c - self.a) * 2
        y = np.where(x <= self.b, (x - self.a) * h, (self.c - x) * h)
        return float(y) if y.ndim == 0 else y


class _StepDensity(object):
    def __init__(self, breaks, vals):
        self.b, self.v = np.array(breaks, float), np.array(vals, float)

    def __call__(self, x):
        x = np.asarray(x, float)
        i = np.clip(np.searchsorted(self.b, x, side="right") - 1, 0, len(self.v) - 1)
        y = self.v[i]
        return float(y) if y.ndim == 0 else y


def evaluate(tokens, leaf, num=float):
    """Evaluate reverse Polish tokens; leaf(name, k) gives the k-th operand;
    num maps the (rational) numbers in tokens to floats."""
    import pacal as P
    st = []
    k = 0
    for t in tokens:
        name, _, arg = t.partition(":")
        if name == "add":
            b, a = st.pop(), st.pop()
            st.append(a + b)
        elif name == "sub":
            b, a = st.pop(), st.pop()
            st.append(a - b)
        elif name == "mul":
            b, a = st.pop(), st.pop()
            st.append(a * b)
        elif name == "div":
            b, a = st.pop(), st.pop()
            st.append(a / b)
        elif name == "max":
            b, a = st.pop(), st.pop()
            st.append(P.max(a, b))
        elif name == "min":
            b, a = st.pop(), st.pop()
            st.append(P.min(a, b))
        elif name == "mix":
            b, a = st.pop(), st.pop()
            p, q = (int(x) for x in (arg or "1,3").split(","))
            st.append(P.MixDistr([p / (p + q), q / (p + q)], [a, b]))
        elif name == "pow":
            b, a = st.pop(), st.pop()
            st.append(a ** b)
        elif name == "neg":
            st.append(-st.pop())
        elif name == "abs":
            st.append(abs(st.pop()))
        elif name == "num":
            v = Fraction(arg)
            st.append(int(v) if v.denominator == 1 else float(v))
        elif name in UN:
            st.append(UN[name](P, st.pop(), arg, num))
        else:
            st.append(leaf(t, k))
            k += 1
    if len(st) != 1:
        raise MachineryError("bad expression %r" % (tokens,))
    return st[0]


def _n(a):
    v = Fraction(a)
    return int(v) if v.denominator == 1 else float(v)


UN = {
    "inv": lambda P, d, a, num: 1 / d,
    "sqr": lambda P, d, a, num: d ** 2,
    "sqrt": lambda P, d, a, num: P.sqrt(d),
    "exp": lambda P, d, a, num: P.exp(d),
    "log": lambda P, d, a, num: P.log(d),
    "sign": lambda P, d, a, num: P.sign(d),
    "sigmoid": lambda P, d, a, num: P.distr.sigmoid(d),
    "rpow": lambda P, d, a, num: _n(a) ** d,
    "atan": lambda P, d, a, num: P.atan(d),
    "tanh": lambda P, d, a, num: P.tanh(d),
    "sin": lambda P, d, a, num: P.sin(d),
    "cos": lambda P, d, a, num: P.cos(d),
    "tan": lambda P, d, a, num: P.tan(d),
    "powc": lambda P, d, a, num: d ** (int(a) if "/" not in a and "." not in a else float(Fraction(a))),
    "addc": lambda P, d, a, num: d + num(Fraction(a)),
    "raddc": lambda P, d, a, num: num(Fraction(a)) + d,
    "subc": lambda P, d, a, num: d - num(Fraction(a)),
    "rsubc": lambda P, d, a, num: num(Fraction(a)) - d,
    "mulc": lambda P, d, a, num: d * _n(a),
    "rmulc": lambda P, d, a, num: _n(a) * d,
    "divc": lambda P, d, a, num: d / _n(a),
    "rdivc": lambda P, d, a, num: _n(a) / d,
    "minc": lambda P, d, a, num: P.min(d, num(Fraction(a))),
    "rminc": lambda P, d, a, num: P.min(num(Fraction(a)), d),
    "maxc": lambda P, d, a, num: P.max(d, num(Fraction(a))),
    "rmaxc": lambda P, d, a, num: P.max(num(Fraction(a)), d),
    "gt": lambda P, d, a, num: d | P.Gt(num(Fraction(a))),
    "lt": lambda P, d, a, num: d | P.Lt(num(Fraction(a))),
    "bt": lambda P, d, a, num: d | P.Between(*[num(Fraction(x)) for x in a.split(",")]),
}


# -------------------------------------------------------------------------
# laws observed through pacal's public interface
# -------------------------------------------------------------------------
def diracs(d, tiny=1e-13):
    return [(float(s.a), float(s.f)) for s in d.get_piecewise_pdf().getDiracs() if abs(float(s.f)) > tiny]


def check_obs(r, d, pts, atoms, mean=None, var=None, tol=1e-9, unit=1.0, postol=None, cont_slope=None,
              exact_atoms=True, moments_tol=None):
    """Compare the law of d with expected values.

    pts    list of (x, F(x), F(x-)) ; x that are atoms have F(x) != F(x-)
    atoms  list of (x, mass)
    unit   length scale of the presentation (for position tolerances)"""
    ok, f = r.call("law", d.get_piecewise_pdf)
    if not ok:
        return
    ok, tot = r.call("total-mass", f.integrate)
    if ok:
        r.close("total-mass", tot, 1.0, max(tol, 1e-9), "integral of the density")
    postol = postol or 1e-9 * unit
    got = diracs(d)
    want = [(x, m) for x, m in atoms if m > 0]
    r.n += 1
    if len(got) != len(want) or any(abs(g[0] - w[0]) > postol * max(1.0, abs(w[0]) / unit) or abs(g[1] - w[1]) > max(tol, 1e-10)
                                    for g, w in zip(sorted(got), sorted(want))):
        r.expect("atoms", False, "got %s want %s" % (sorted(got)[:8], sorted(want)[:8]))
    xs, Fs, tols = [], [], []
    delta = 1e-7 * unit
    slope = cont_slope if cont_slope is not None else 0.0
    for x, F, L in pts:
        if F == L:
            xs.append(x)
            Fs.append(F)
            tols.append(tol)
        else:               # a jump: also read off next to it, where the continuous part adds at most slope * distance
            dd = delta * max(1.0, abs(x) / unit)
            if exact_atoms:
                xs.append(x)
                Fs.append(F)
                tols.append(tol)
            xs += [x - dd, x + dd]
            Fs += [L, F]
            tols += [tol + slope * dd] * 2
    if not xs:
        return
    ok, c = r.call("cdf", d.cdf, np.array(xs))
    if ok:
        c = np.asarray(c, float)
        for x, F, v, tl in zip(xs, Fs, c, tols):
            if not abs(v - F) <= tl:
                r.expect("cdf", False, "cdf(%.12g) = %.15g, exact %.15g (err %.3g)" % (x, v, F, abs(v - F)))
                break
        r.n += len(xs)
    # scalar argument and complementary probability at one inner point
    k = len(xs) // 2
    ok, v = r.call("cdf-scalar", d.cdf, xs[k])
    if ok:
        r.close("cdf-scalar", v, Fs[k], tols[k], "cdf(%.12g)" % xs[k])
    ok, v = r.call("ccdf", d.ccdf, xs[k])
    if ok:
        r.close("ccdf", v, 1 - Fs[k], tols[k], "ccdf(%.12g)" % xs[k])
    mt = moments_tol or max(tol, 1e-9)
    if mean is not None:
        ok, v = r.call("mean", d.mean)
        if ok:
            r.close("mean", v, mean, mt * max(unit, abs(mean)), "mean")
    if var is not None:
        ok, v = r.call("var", d.var)
        if ok:
            r.close("var", v, var, mt * 10 * max(unit * unit, var, (mean or 0) ** 2), "variance")


def lattice_pts(obs):
    """Obs(L) record -> [(x, F, L)], atoms in lattice units (Fractions)"""
    lo = obs["lo"]
    pts = [(Fraction(lo + k, 2), fr(c), fr(l)) for k, (c, l) in enumerate(zip(obs["cdf"], obs["left"]))]
    return pts, [(Fraction(a), fr(m)) for a, m in obs["atoms"]]
