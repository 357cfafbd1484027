"""C08: arithmetic on named variables follows the closure theorems (spec/Closure.tla, spec/Families.tla)."""
from fractions import Fraction
import hashlib
import math
import numpy as np
from .. import core, calc
from ..laws import Law
from .c07 import make, missing

LOW = [1e-7, 1e-4, 0.01, 0.1, 0.3, 0.5]
UP = [0.4, 0.2, 0.05, 1e-3, 1e-6]


SINGULAR = {"b1h", "bhh"}
BINARY = {"add", "sub", "mul", "div", "max", "min"}


def skip(e, what):
    """the tail of 1/X is not resolved when the density of X near zero is an interpolant:
    no variance of 1/X, no mean of 1/X**2"""
    done = False
    for t in e:
        if done and (t.startswith("powc:-") or what == "var" and (t == "div" or t.startswith("rdivc"))):
            return True
        if t in BINARY or t[:3] in ("gt:", "lt:"):
            done = True
    return False


def ends(L):
    """[(end of the support, exponent b of the mass next to it: F ~ |x - end|^b)], heavy tail exponents"""
    f, p = L.f, L.p
    if f == "G":
        e = [("z", p[0] * abs(p[2]))] if p[2] > 0 else [("t", p[0] * abs(p[2]))]
    elif f == "B":
        e = [("z", p[0] * p[3]), ("e", p[1])] if p[3] > 0 else [("t", p[0] * -p[3]), ("e", p[1])]
    elif f == "R":
        e = [("z", (p[0] if p[3] > 0 else p[1]) * abs(p[3])), ("t", (p[1] if p[3] > 0 else p[0]) * abs(p[3]))]
    elif f == "C":
        e = [("t", 1.0)]
    else:
        e = []
    return e


def tolerance(L):
    tol = 1e-8
    if L.w in ("id", "exp"):
        for k, b in ends(L):
            if k == "t":
                if b < 0.5:
                    tol += 1e-6 if b >= 0.2 else 1e-4 if b >= 0.1 else 2e-3
            else:
                tol += 3 * ((1e-50 if L.a == 0 and L.w == "id" and k == "z" else 1e-15 * max(1.0, abs(L.a))) ** b)
    return tol


def label(v):
    return " ".join(v["e"])


def one(v):
    r = core.Result()
    L = Law(v["L"])
    names = v["ls"]

    def leaf(t, k):
        n, q = names[t]
        return make(n, q)
    ok, d = r.call("build", calc.evaluate, v["e"], leaf)
    if not ok:
        return r
    if isinstance(d, (int, float)):
        r.expect("build", False, "a number: %r" % d)
        return r
    ok, f = r.call("law", d.get_piecewise_pdf)
    if not ok:
        return r
    tol = tolerance(L) + (2e-7 if len(v["r"]) > 1 else 0)
    mtol = 2e-7
    if "atan" in v["e"]:
        tol += 1e-7  # the ends +-pi/2 are resolved to the spacing of floats
    if BINARY & set(v["e"]) and sum(t.startswith("rdivc") or t == "div" or t.startswith("powc:-") for t in v["e"]) > 2:
        tol += 1e-3  # repeated reciprocals of interpolants
    if SINGULAR & set(v["e"]) and BINARY & set(v["e"]):
        # densities with a singularity away from zero: the documented accuracy classes
        two = sum(t in SINGULAR for t in v["e"]) > 1 and {"mul", "div"} & set(v["e"])
        tol += 3e-4 if two else 3e-7
        if sum(t in BINARY for t in v["e"]) > 1:
            tol += 5e-5
        mtol = 1e-3 if two else 1e-6
    mtol = max(mtol, 2 * tol)
    for x in (0.0, L.support()[0], L.support()[1]) if not L.discrete else ():
        r.call("pdf-at-end", d.pdf, float(x))
    if L.w == "exp" and L.ppf(1e-6, True) > 1e6 * L.ppf(1e-3, True):
        return r  # tails with exponents below 1/2 are outside of the claimed accuracy
    ok, t = r.call("total-mass", f.integrate)
    if ok:
        r.close("total-mass", t, 1.0, tol, "integral of the density")
    if L.discrete:
        at = dict(L.atoms())
        got = {}
        for s in f.getDiracs():
            got[float(s.a)] = got.get(float(s.a), 0.0) + float(s.f)
        for x in sorted(set(got) | {x for x, m in at.items() if m > 1e-10}):
            r.expect("atoms", abs(got.get(x, 0.0) - at.get(x, 0.0)) <= 1e-9, lambda: "P(X=%g): got %r want %r" % (x, got.get(x), at.get(x)))
        xs = sorted({x + e for x, m in at.items() if m > 1e-12 for e in (-0.5, 0)})
        ups = []
        unit = L.iqr()
    else:
        lo, hi = L.support()
        xs = [x for x in (L.ppf(p) for p in LOW) if math.isfinite(x) and lo < x < hi]
        ups = [x for x in (L.ppf(p, True) for p in UP) if math.isfinite(x) and lo < x < hi]
        unit = L.iqr()
        if math.isfinite(lo):
            xs += [lo - 0.3 * unit, lo]
        if math.isfinite(hi):
            ups += [hi, hi + 0.3 * unit]
        xs, ups = sorted(set(xs)), sorted(set(ups))
    ok, c = r.call("cdf", d.cdf, np.array(xs + ups, float))
    if ok:
        for x, g in zip(xs + ups, np.asarray(c, float)):
            w = L.cdf(x)
            r.expect("cdf", abs(g - w) <= tol, lambda: "cdf(%.12g) = %.15g, exact %.15g (err %.3g)" % (x, g, w, abs(g - w)))
    for x in ups:
        ok, g = r.call("ccdf", d.ccdf, x)
        if ok:
            r.close("ccdf", g, L.sf(x), tol, "ccdf(%.12g)" % x)
    nm = L.mean_var() if not L.discrete else (None, None)
    for what, m, k in (("mean", v["mean"], 0), ("var", v["var"], 1)):
        w = float(Fraction(*m["v"])) if m["t"] == "f" else math.inf if m["t"] == "i" else nm[k]
        if w is None or skip(v["e"], what):
            continue
        ok, g = r.call(what, getattr(d, what))
        if not ok:
            continue
        if not math.isfinite(w):
            r.expect(what, missing(g), lambda: "%s = %r, does not exist" % (what, g))
        else:
            r.close(what, g, w, mtol * max(abs(w), unit if k == 0 else unit ** 2), what)
    if not L.discrete and L.b in (1.0, -1.0):
        y = L.ppf(0.4)
        ok, g = r.call("pdf", d.pdf, np.array([y, L.ppf(0.8)]))
        if ok:
            for x, v_ in zip([y, L.ppf(0.8)], g):
                r.close("pdf", v_, L.pdf(x), (1e-6 if mtol <= 2e-7 else 3e-5 if mtol < 1e-4 else 3e-3) * L.pdf(x), "pdf(%.12g)" % x)
    return r


def select(recs, per1, per2, coarse=False):
    """representatives of every sequence of rules; coarse: of every rule and of every pair of operations"""
    groups = {}
    for v in recs:
        v["key"] = label(v)
        g = tuple(tuple(x) for x in v["r"])
        groups.setdefault((g[-2][0], g[-1][0], len(g) > 2) if coarse and len(g) > 1 else g, []).append(v)
    out = []
    for g, vs in sorted(groups.items(), key=lambda x: str(x[0])):
        vs.sort(key=lambda v: (sum(t in BINARY for t in v["e"]), hashlib.md5(v["key"].encode()).hexdigest()))
        out += vs[:per1 if len(vs[0]["r"]) == 1 else per2]
    return out


def run(ctx):
    if ctx.tier != "thorough":
        return ctx.replay(select(ctx.tlc_many([("Closure", "C08_q1")]), 2, 1, True), one, label="closure theorems")
    ctx.replay(select(ctx.tlc_many([("Closure", "C08_t1")]), 8, 1), one, label="closure theorems")
    # longer routes: one in four of the sequences of three operations
    groups = {}
    for v in ctx.tlc_many([("Closure", "C08_t2")]):
        if len(v["r"]) > 2:
            v["key"] = label(v)
            groups.setdefault(tuple(x[0] for x in v["r"]), []).append(v)
    md5 = lambda x: hashlib.md5(str(x).encode()).hexdigest()
    ctx.replay([min(vs, key=lambda v: md5(v["key"])) for g, vs in sorted(groups.items()) if int(md5(g), 16) % 4 == 0],
               one, label="longer routes")
