"""C09: aggregates of n i.i.d. copies (spec/Iid.tla, spec/IidCalls.tla)."""
from fractions import Fraction
import math
from .. import calc, core

LN2 = math.log(2.0)
ROT = [("unit", 0), ("scale.3", 0), ("shift10", 1), ("unit", 1), ("scale1e3", 0), ("shift-3", 1), ("s.3t.1", 3), ("unit", 3),
       ("scale7th", 1), ("unit", 2)]
MSC = [1.0, 0.5, 3.0, 0.2, 8.0]


def ih(m, x):
    """P(U1 + .. + Um <= x), x a Fraction"""
    if m == 0:
        return Fraction(1 if x >= 0 else 0)
    if x <= 0:
        return Fraction(0)
    if x >= m:
        return Fraction(1)
    k, s = 0, Fraction(0)
    while k <= x:
        s += (-1) ** k * math.comb(m, k) * (x - k) ** m
        k += 1
    return s / math.factorial(m)


def add_law(v):
    """points and atoms of the law of the sum on the half lattice"""
    W = Fraction(v["W"])
    lo = min(i for m, i, w in v["keys"]) - 1
    hi = max(i + m for m, i, w in v["keys"]) + 1
    step = max(1, (hi - lo) // 25)
    at = {i: w / W for m, i, w in v["keys"] if m == 0}
    xs = sorted(set([Fraction(t, 2) for t in range(2 * lo, 2 * hi + 1, step)] + [Fraction(a) for a in at]))
    pts = []
    for x in xs:
        F = sum(w * ih(m, x - i) for m, i, w in v["keys"]) / W
        pts.append((x, F, F - at.get(x, 0)))
    return pts, sorted(at.items())


def zval(z):
    return z[0] * 2.0 ** z[1] if z[0] else 0.0


def leaf_mul(items, c, cons):
    import pacal as P
    W = float(sum(i[3] for i in items))
    comps = []
    for t, a, b, w in items:
        comps.append((w / W, P.UniformDistr(c * a, c * b) if t == "u" else P.ConstDistr(c * a)))
    if len(comps) == 1:
        return comps[0][1]
    if all(i[0] == "a" for i in items):
        return P.DiscreteDistr(xi=[c * i[1] for i in items], pi=[i[3] / W for i in items])
    if cons:
        comps.reverse()
    return P.MixDistr([p for p, _ in comps], [d for _, d in comps])


def chk_add(r, d, v, s, t, avg, exact, tag=""):
    n = v["n"]
    pts, atoms = add_law(v)
    den = n if avg else 1
    f = lambda x: (s * float(x) + n * t) / den
    exact = exact and (not avg or n in (1, 2, 4, 8))
    calc.check_obs(r, d, [(f(x), float(F), float(L)) for x, F, L in pts], [(f(a), float(m)) for a, m in atoms],
                   mean=f(calc.fr(v["mean"])), var=s * s * float(calc.fr(v["var"])) / den ** 2,
                   tol=5e-9, unit=s / den, cont_slope=3.0 * den / s, exact_atoms=exact)


def chk_mul(r, d, v, c, geom, tag=""):
    n = v["n"]
    pts, atoms = [], []
    C = c ** n
    g = (lambda z: (C * z) ** (1.0 / n)) if geom else (lambda z: C * z)
    for z, pol, m in v["pts"]:
        if geom and z[0] <= 0:
            continue
        x = g(zval(z))
        F = math.fsum(a / b * LN2 ** i for i, (a, b) in enumerate(pol))
        mm = m[0] / m[1]
        pts.append((x, F, F - mm))
        if mm:
            atoms.append((x, mm))
    mean, var = None, None
    if not geom:
        mean = C * float(calc.fr(v["mean"]))
        var = C * C * float(calc.fr(v["m2"]) - calc.fr(v["mean"]) ** 2)
    unit = abs(c) if geom else abs(C)
    calc.check_obs(r, d, pts, atoms, mean=mean, var=var, tol=1e-7, unit=unit, cont_slope=3000.0 / unit, exact_atoms=False,
                   moments_tol=1e-7)


def chk_ord(r, d, v, s, t, cs, exact, cont=4.0):
    """cs: equal mixture of the order statistics of these orders"""
    lo, n = v["lo"], v["n"]
    f = lambda x: s * float(x) + t
    pts, atoms = [], []
    N = len(v["F"][0])
    for i in range(-1, N + 1):
        x = Fraction(lo + i, 4)
        F = L = Fraction(0 if i < 0 else 1)
        if 0 <= i < N:
            F = sum(calc.fr(v["F"][k - 1][i]) for k in cs) / len(cs)
            L = sum(calc.fr(v["L"][k - 1][i]) for k in cs) / len(cs)
        pts.append((x, F, L))
        if F != L:
            atoms.append((x, F - L))
    calc.check_obs(r, d, [(f(x), float(F), float(L)) for x, F, L in pts], [(f(a), float(m)) for a, m in atoms],
                   tol=5e-9, unit=s, cont_slope=cont * n / s, exact_atoms=exact)


EXACT = ("unit", "scale1e3", "shift10", "shift-3")


def leaf(v):
    if v["kind"] == "mul":
        return leaf_mul(v["items"], v["c"], v["cons"]), v["c"], 0.0
    s, t = calc.PRES[v["pres"]]
    return calc.build_leaf(v["items"], s, t, v["cons"]), s, t


def replay(v):
    import pacal as P
    from pacal.stats import iid_ops
    r = core.Result()
    X, s, t = leaf(v)
    fun, n = v["fun"], v["n"]
    flag = v["flag"]
    P.params.general.warn_on_dependent = flag
    exact = v.get("pres") in EXACT and v["cons"] != 2
    recs = v.get("prefixes")
    try:
        if fun in ("sum", "avg", "prod", "geom"):
            f = {"sum": P.iid_sum, "avg": P.iid_average, "prod": P.iid_prod, "geom": P.iid_average_geom}[fun]
            if recs:
                ok, ds = r.call(fun, f, X, n, all=True)
                if ok and r.expect("prefixes", len(ds) == n, lambda: "%d results for n = %d" % (len(ds), n)):
                    pairs = list(zip(ds, recs))
                else:
                    pairs = []
            else:
                ok, d = r.call(fun, f, X, n)
                pairs = [(d, v)] if ok else []
            for d, q in pairs:
                if fun in ("sum", "avg"):
                    chk_add(r, d, q, s, t, fun == "avg", exact)
                else:
                    chk_mul(r, d, q, s, fun == "geom")
        elif fun in ("min", "max"):
            f = P.iid_min if fun == "min" else P.iid_max
            if recs:
                ok, ds = r.call(fun, f, X, n, all=True)
                if ok and r.expect("prefixes", len(ds) == n, lambda: "%d results for n = %d" % (len(ds), n)):
                    for d, q in zip(ds, recs):
                        chk_ord(r, d, q, s, t, [1 if fun == "min" else q["n"]], exact)
            else:
                ok, d = r.call(fun, f, X, n)
                if ok:
                    chk_ord(r, d, v, s, t, [1 if fun == "min" else n], exact)
        elif fun == "median":
            ok, d = r.call(fun, P.iid_median, X, n)
            if ok:
                chk_ord(r, d, v, s, t, [(n + 1) // 2], exact)
        elif fun == "order":
            ok, d = r.call(fun, P.iid_order_stat, X, n, v["k"])
            if ok:
                chk_ord(r, d, v, s, t, [v["k"]], exact)
        elif fun == "unknown":
            ok, d = r.call(fun, iid_ops.iid_unknown, X, n, v["k"])
            if ok:
                chk_ord(r, d, v, s, t, list(range(v["k"], n + 1)), exact)
        r.expect("setting", P.params.general.warn_on_dependent is flag, "warn_on_dependent changed by %s" % fun)
    finally:
        P.params.general.warn_on_dependent = False
    return r


class _Odd(object):
    """an operand that can be combined once and then refuses"""

    def __init__(self, lives):
        self.lives = lives

    def _op(self, other):
        if self.lives == 0:
            raise ZeroDivisionError("refused")
        return _Odd(self.lives - 1)
    __add__ = __mul__ = _op


def replay_calls(v):
    """sequence of aggregate calls, some of which fail: the setting survives"""
    import pacal as P
    r = core.Result()
    P.params.general.warn_on_dependent = v["init"]
    try:
        for st in v["hist"]:
            if st[0] == "set":
                P.params.general.warn_on_dependent = st[1]
            else:
                f = {"sum": P.iid_sum, "prod": P.iid_prod, "average": P.iid_average}[st[1]]
                bad = st[2] == "fails"
                X = _Odd(1) if bad else P.ConstDistr(2.0)
                try:
                    f(X, 4, all=st[3])
                    r.expect("refusal", not bad, "no exception although the operands cannot be combined")
                except ZeroDivisionError:
                    r.expect("refusal", bad, "failed")
            want = st[-1]
            if not r.expect("setting", P.params.general.warn_on_dependent is want,
                            lambda: "warn_on_dependent is %r after %r, should be %r" % (P.params.general.warn_on_dependent, st, want)):
                break
    finally:
        P.params.general.warn_on_dependent = False
    return r


def run(ctx):
    recs = ctx.tlc_many([("Iid", "C09_q1"), ("IidCalls", "C09_c")] + ([("Iid", "C09_t1"), ("Iid", "C09_t2")] if ctx.tier == "thorough" else []))
    calls = [dict(r, key="calls %s %s" % (r["init"], r["hist"])) for r in recs if r["kind"] == "calls"]
    best = {}
    for r in recs:
        if r["kind"] in ("add", "mul", "ord"):
            best[(r["kind"], r["leaf"], r["n"])] = r
    vecs = []
    full = ctx.tier == "thorough"
    nmax = {}
    for (kind, lf, n) in best:
        nmax[(kind, lf)] = max(n, nmax.get((kind, lf), 0))
    idx = 0
    for (kind, lf, n), r in sorted(best.items()):
        positive = kind == "mul" and all(z[0] > 0 or (pol[0] == [0, 1] and all(p[0] == 0 for p in pol)) for z, pol, m in best[(kind, lf, 1)]["pts"])
        funs = {"add": [("sum", 0), ("avg", 0)], "mul": [("prod", 0)] + ([("geom", 0)] if positive else []),
                "ord": [("min", 0), ("max", 0), ("median", 0)] + [("order", k) for k in range(1, n + 1)] + [("unknown", k) for k in range(1, n + 1)]}[kind]
        for fun, k in funs:
            idx += 1
            plans = range(idx % 3, len(ROT), 3) if full else [idx % len(ROT)]
            if not full and kind == "ord" and fun in ("order", "unknown") and (idx * 7 + n) % 3:
                continue
            for p in plans:
                pres, cons = ROT[p % len(ROT)]
                w = dict(r, fun=fun, k=k, flag=bool(idx % 2), pres=pres, cons=cons)
                if kind == "mul":
                    w["c"] = MSC[p % len(MSC)]
                    w["cons"] = cons % 2
                w["key"] = "%s %s n=%d%s @%s/%d" % (fun, lf, n, " k=%d" % k if k else "", "%g" % w["c"] if kind == "mul" else pres, w["cons"])
                vecs.append(w)
            if n == nmax[(kind, lf)] and fun in ("sum", "avg", "prod", "geom", "min", "max"):
                w = dict(vecs[-1])
                w["prefixes"] = [best[(kind, lf, j)] for j in range(1, n + 1)]
                w["key"] = "all " + w["key"]
                vecs.append(w)
    ctx.replay(calls, replay_calls, label="sequence of calls, some failing")
    ctx.replay(vecs, replay, label="aggregate with exact law")
