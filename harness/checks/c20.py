"""C20: interpolation (spec/Interp.tla, Lagrange.tla, Tails.tla)."""
from fractions import Fraction
import numpy as np
from .. import core

BOXES = [(-1.0, 2.0), (0.0, 1.0), (-3.0, 0.5), (2.0, 0.25), (-0.125, 4.0), (10.0, 1.0), (0.0, 100.0)]       # lower end, width
POSBOX = [(1.0, 3.0), (0.5, 0.25), (2.0, 30.0), (7.0, 1.0)]
MYTOL = 1e-9


def cheb(terms, s):
    s = np.asarray(s, dtype=float)
    h = np.arccos(np.clip(s, -1, 1))
    y = np.zeros(s.shape)
    for m, c in terms:
        y = y + float(c) * np.cos(m * h)
    return y


class Par(object):
    """parameters of an interpolation"""
    debug_info = False
    debug_plot = False

    def __init__(self, maxn, abstol=MYTOL):
        from pacal import params
        self.maxn = maxn
        self.convergence = type("conv", (params.interpolation.convergence,), {})
        self.convergence.abstol, self.convergence.reltol, self.convergence.min_quit_iter = abstol, 0.0, 10000


class Lin(object):
    """no transformation"""
    grow = 1.0

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.lo, self.hi = a, b

    def s(self, x):
        return (2 * np.asarray(x, dtype=float) - self.a - self.b) / (self.b - self.a)

    def x(self, s):
        return (self.a + self.b) / 2.0 + (self.b - self.a) / 2.0 * s


class Map(object):
    """x -> u(x) -> s in [-1, 1]"""
    def __init__(self, u, inv, u0, u1, lo, hi):
        self.u, self.inv, self.u0, self.u1, self.lo, self.hi = u, inv, u0, u1, lo, hi

    def s(self, x):
        return (2 * self.u(np.asarray(x, dtype=float)) - self.u0 - self.u1) / (self.u1 - self.u0)

    def x(self, s):
        return self.inv((self.u0 + self.u1) / 2.0 + (self.u1 - self.u0) / 2.0 * np.asarray(s, dtype=float))


def recip_u(L, o, e):
    return lambda x: (o / (x - L + o)) ** (1.0 / e)


def recip_inv(L, o, e):
    return lambda t: L - o + o / t ** e


class Fun(object):
    """the function handed to the interpolator; records where it is asked"""
    def __init__(self, terms, m, amp, up, amount=1.0):
        self.terms, self.m, self.amp, self.up, self.calls = terms, m, amp, up, []
        self.record = True

    def value(self, terms, x):
        return self.up(self.amp * cheb(terms, self.m.s(x)))

    def __call__(self, x):
        if self.record and np.ndim(x) > 0:
            self.calls.append(np.array(x, dtype=float))
        y = self.value(self.terms, x)
        return y if np.ndim(x) else float(y)


def grid(kind, n):
    if kind == "1":
        return [(2 * i + 1, 2 * n) for i in range(n)]
    return [(i, n - 1) for i in range(1 if kind == "L" else 0, n - 1 if kind == "R" else n)]


def pos(kind, n):
    return set(Fraction(i, d) for i, d in grid(kind, n))


def grow(kind, n):
    return 3 * n if kind == "1" else 2 * n - 1


def unit_nodes(kind, n):
    return np.array([-np.cos(i * np.pi / d) for i, d in grid(kind, n)])


def build(cl, var, f_terms):
    """a variant of class cl: (name, map, make(f, par), amplitude, value transform, tolerance factor)"""
    from pacal import interpolation as I
    from pacal import vartransforms as V
    size = 1 + sum(abs(c) for m, c in f_terms)
    ident = lambda y: y
    if cl in ("cheb", "nol", "nor", "cheb1"):
        a, w = BOXES[var % len(BOXES)]
        b = a + w
        C = dict(cheb=I.ChebyshevInterpolator, nol=I.ChebyshevInterpolatorNoL, nor=I.ChebyshevInterpolatorNoR, cheb1=I.ChebyshevInterpolator1)[cl]
        return "[%g,%g]" % (a, b), Lin(a, b), lambda f, p: C(f, a, b, par=p), 1.0, ident, 1.0, None
    if cl == "ident":
        return "[-1,1]", Lin(-1.0, 1.0), lambda f, p: I.VarTransformInterpolator(f, par=p), 1.0, ident, 1.0, None
    if cl == "pminf":
        k = var % 5
        if k in (0, 1):
            c = 2.5 if k else 1.0
            m = Map(lambda x: x / np.hypot(c, x), lambda t: c * t / np.sqrt(1 - t * t), -1.0, 1.0, -np.inf, np.inf)
            vt = V.VarTransformAlgebraic_PMInf(c)
        elif k == 2:
            m = Map(lambda x: x / (1 + abs(x)), lambda t: t / (1 - abs(t)), -1.0, 1.0, -np.inf, np.inf)
            vt = V.VarTransformReciprocal_PMInf()
        elif k == 3:
            m = Map(lambda x: (x - 2.0 - 3.0) / (x - 2.0 + 3.0), lambda t: 2.0 + 3.0 * (1 + t) / (1 - t), -1.0, 1.0, 2.0, np.inf)
            vt = V.VarTransformAlgebraic_PInf(2.0, 3.0)
        else:
            m = Map(lambda x: (1.5 - x - 0.5) / (1.5 - x + 0.5), lambda t: 1.5 - 0.5 * (1 + t) / (1 - t), -1.0, 1.0, -np.inf, 1.5)
            vt = V.VarTransformAlgebraic_MInf(1.5, 0.5)
        return type(vt).__name__, m, lambda f, p: I.VarTransformInterpolator(f, vt, par=p), 1.0, ident, 10.0, vt
    if cl in ("pinf", "minf", "pinfU", "minfL"):
        L = [0.0, 2.0, -3.0, 0.25][var % 4]
        e = [1, 2, 3, 6][(var // 2) % 4]
        o = [None, 1.0, 0.125, 20.0][(var // 3) % 4]
        off = o if o is not None else (1.0 if L == 0 else abs(L) / 2.0)
        far = [3.0, 50.0, 1e4][var % 3]
        u, inv = recip_u(L, off, e), recip_inv(L, off, e)
        fin = cl in ("pinfU", "minfL")
        u0 = float(u(L + far)) if fin else 0.0
        if cl in ("pinf", "pinfU"):
            m = Map(u, inv, u0, 1.0, L, L + far if fin else np.inf)
            vt = V.VarTransformReciprocal_PInf(L, exponent=e, offset=o, U=L + far if fin else None)
        else:
            m = Map(lambda x: u(2 * L - x), lambda t: 2 * L - inv(t), u0, 1.0, L - far if fin else -np.inf, L)
            vt = V.VarTransformReciprocal_MInf(L, exponent=e, offset=o, L=L - far if fin else None)
        return "%g exponent %d offset %s%s" % (L, e, o, " far end %g" % far if fin else ""), m, lambda f, p: I.VarTransformInterpolator(f, vt, par=p), 1.0, ident, 30.0, vt
    if cl == "val":
        a, w = POSBOX[var % len(POSBOX)]
        b = a + w
        return "[%g,%g]" % (a, b), Map(np.log, np.exp, np.log(a), np.log(b), a, b), lambda f, p: I.ValTransformInterpolator(f, a, b, par=p), 1.0 / size, np.exp, 30.0, None
    if cl == "log":
        a, w = [(0.0, 10.0), (1.0, 1e3), (-2.0, 50.0), (5.0, 2.0), (-0.5, 0.25)][var % 5]
        b = a + w
        o = a if a < 0 else 0.0
        return "[%g,%g]" % (a, b), Map(lambda x: np.log1p(x - o), lambda t: np.expm1(t) + o, float(np.log1p(a - o)), float(np.log1p(b - o)), a, b), lambda f, p: I.LogTransformInterpolator(f, a, b), 1.0 / size, np.exp, 30.0, None
    assert cl in ("poleP", "poleN")
    w = [1.0, 0.25, 8.0][var % 3]
    sg = [1.0, 1.0, -1.0][(var // 2) % 3]
    tiny = 1e-50
    if cl == "poleP":
        # the class keeps the distance from the pole above tiny
        m = Map(lambda x: np.log(np.maximum(x - tiny, 1e-60)), lambda t: np.exp(t) + tiny, float(np.log(tiny)), float(np.log(w)), 0.0, w)
        C, a, b = I.PoleInterpolatorP, 0.0, w
    else:
        m = Map(lambda x: np.log(np.maximum(-x - tiny, 1e-60)), lambda t: -np.exp(t) - tiny, float(np.log(w)), float(np.log(tiny)), -w, 0.0)
        C, a, b = I.PoleInterpolatorN, -w, 0.0
    return "[%g,%g] sign %g" % (a, b, sg), m, lambda f, p: C(f, a, b, par=p), 1.0 / size, lambda y: sg * np.expm1(y) / w, 100.0, None



def errs(cl, var, amp):
    """the scale in which the interpolator measures errors: differences of the transformed values"""
    return (lambda y: np.exp(amp * y)) if cl == "val" else (lambda y: amp * y)


def same(r, clause, got, want, tol, what):
    got = np.asarray(got, dtype=float)
    bad = ~(np.abs(got - want) <= tol)
    k = int(np.argmax(bad)) if np.size(bad) else 0
    return r.expect(clause, np.shape(got) == np.shape(want) and not np.any(bad),
                    lambda: "%s: %r, specification %r" % (what(k), np.ravel(got)[k] if np.size(got) > k else got, np.ravel(want)[k]))


def replay(v):
    return dict(interp=replay_interp, lagrange=replay_lagrange, tails=replay_tails, nodes=replay_nodes, change=replay_change)[v["what"]](v)


def replay_interp(v):
    from pacal import params, interpolation as I
    r = core.Result()
    st = v["stages"]
    last = st[-1]
    kind, cl = last["kind"], v["cl"]
    name, m, make, amp, up, slack, vt = build(cl, v["var"], last["f"])
    f = Fun(last["f"], m, amp, up)
    size = 1 + sum(abs(c) for k, c in last["f"])
    top = max([k for k, c in last["f"]] + [1])
    P = Par(last["maxn"], MYTOL * size * amp * max(1, slack / 10.0))
    asymp = params.interpolation_asymp
    old = asymp.maxn, asymp.convergence
    asymp.maxn, asymp.convergence = P.maxn, P.convergence
    try:
        with core.quiet():
            ok, ai = r.call("builds", make, f, P)
    finally:
        asymp.maxn, asymp.convergence = old
    if not ok:
        return r
    f.record = False
    # --- the machine: which nodes were asked for, and when it stopped
    ns = [s["n"] for s in st]
    calls = f.calls
    seen = set()
    trial = grow(kind, ns[-1])
    extra = 1 if ns[-1] <= last["maxn"] else 0
    if r.expect("stop", len(calls) == len(ns) + extra, "%d rounds of evaluations, specification %d (sizes %s)" % (len(calls), len(ns) + extra, ns)):
        inf = {"pminf": (1,) if name in ("VarTransformAlgebraic_PInf", "VarTransformAlgebraic_MInf") else (0, 1), "pinf": (0,), "minf": (0,)}.get(cl, ())
        for k, n in enumerate(ns + [trial] * extra):
            want = pos(kind, n)
            r.expect("machine", k >= len(ns) or len(want) == st[k]["nodes"], "harness and specification count nodes differently")
            s = np.clip(m.s(calls[k]), -1, 1)
            got = np.arccos(-s) / np.pi
            w = np.array([float(q) for q in sorted((want - seen) - set(inf))])
            g = np.sort(got)
            r.expect("nodes", len(g) == len(w) and np.all(np.abs(np.cos(np.pi * g) - np.cos(np.pi * w)) <= 1e-9 * slack),
                     lambda: "round %d: asked at angles %s, specification %s" % (k + 1, g, w))
            r.expect("once", np.all(np.diff(np.sort(calls[k])) > 0), "round %d: a point asked twice" % (k + 1))
            seen |= want
    Xs, Ys = np.asarray(ai.Xs, dtype=float), np.asarray(ai.Ys, dtype=float)
    r.expect("bookkeeping", len(Xs) == st[-1]["nodes"] and len(Ys) == len(Xs) and len(ai.weights) == len(Xs),
             lambda: "%d nodes, %d values, %d weights, specification %d" % (len(Xs), len(Ys), len(ai.weights), st[-1]["nodes"]))
    r.expect("bookkeeping", np.all(np.diff(Xs) > 0) or (cl == "poleN" and np.all(np.diff(Xs) < 0)), "nodes out of order")
    # --- error estimate
    back = errs(cl, v["var"], amp)
    pair = (ns[-1], trial) if extra else (ns[-2] if len(ns) > 1 else None, ns[-1])
    if pair[0] is not None:
        prev = [s for s in st if s["n"] == pair[0]][0]
        new = np.array([float(q) for q in sorted(pos(kind, pair[1]) - pos(kind, pair[0]))])
        sn = -np.cos(np.pi * new)
        want = float(np.max(np.abs(back(cheb(prev["interp"], sn)) - back(cheb(prev["f"], sn)))))
        tol = 3e-8 * slack * size * amp
        r.expect("err", abs(float(ai.err) - want) <= tol, lambda: "reported error %r, specification %r" % (ai.err, want))
    # --- values
    rng = np.random.RandomState(v["seed"])
    sp = np.concatenate([rng.uniform(-1, 1, 60), unit_nodes(kind, ns[-1])[:40], [-1 + 1e-6, 1 - 1e-6, 0.0]])
    if kind == "1" or cl not in ("pminf", "pinf", "minf", "poleP", "poleN"):
        sp = np.concatenate([sp, [-1.0, 1.0]])
    with core.quiet():
        xs = m.x(sp)
    keep = np.isfinite(xs) & (xs >= m.lo) & (xs <= m.hi) & (np.abs(xs) < 1e12)
    xs = xs[keep]
    near = np.concatenate([np.nextafter(xs[:20], np.inf), np.nextafter(xs[20:40], -np.inf)])
    xs = np.concatenate([xs, near[(near >= m.lo) & (near <= m.hi)]])
    want = f.value(last["interp"], xs + {"poleP": 2e-50, "poleN": -2e-50}.get(cl, 0.0))
    if cl == "poleP":                        # never changes sign
        want = up(np.abs(amp * cheb(last["interp"], m.s(xs + 2e-50))))
    cond = np.max(np.abs(want)) if len(want) else 1.0
    tol = 1e-11 * slack * (1 + top ** 2 / 30.0) * (size * amp) * max(1.0, cond if amp != 1.0 else 1.0) + 1e-13
    if cl in ("poleP", "poleN", "log", "val"):
        tol = tol * 10 + 1e-9 * np.abs(want)
    implementations = [True, False] if I.have_Cython else [False]
    vals = {}
    was = I.have_Cython
    for comp in implementations:
        I.have_Cython = comp
        try:
            tag = "compiled" if comp else "plain"
            with core.quiet():
                ok, got = r.call("value", ai.interp_at, xs)
            if not ok:
                continue
            vals[comp] = np.asarray(got, dtype=float)
            same(r, "value", got, want, tol, lambda k: "%s, at %r" % (tag, xs[k]))
            ok, again = r.call("value", ai, xs)
            if ok:
                r.expect("value", np.array_equal(np.asarray(again), np.asarray(got)), "calling and interp_at differ")
            for k in range(0, len(xs), max(1, len(xs) // 12)):
                ok, g1 = r.call("scalar", ai.interp_at, float(xs[k]))
                if ok:
                    r.expect("scalar", np.ndim(g1) == 0 and abs(float(g1) - vals[comp][k]) <= 1e-13 * (1 + abs(vals[comp][k])) + 1e-3 * np.max(tol),
                             lambda: "%s, at %r: scalar %r, array %r" % (tag, xs[k], g1, vals[comp][k]))
            ok, g0 = r.call("shape", ai.interp_at, xs[:0])
            if ok:
                r.expect("shape", np.shape(g0) == (0,), "%s: empty argument gives shape %s" % (tag, np.shape(g0)))
            ok, g3 = r.call("shape", ai.interp_at, xs[3:4])
            if ok:
                r.expect("shape", np.shape(g3) == (1,), "%s: one argument gives shape %s" % (tag, np.shape(g3)))
            if cl in ("cheb", "nol", "nor", "cheb1", "ident"):
                ok, gx = r.call("nodes_exact", ai.interp_at, Xs)
                if ok:
                    r.expect("nodes_exact", np.array_equal(np.asarray(gx), Ys), "%s: value at a node is not the stored one" % tag)
                lo, hi = int(np.ceil(m.lo)), int(np.floor(m.hi))
                if lo <= hi:
                    ok, gi = r.call("scalar", ai.interp_at, hi)
                    if ok:
                        r.expect("scalar", abs(float(gi) - float(f.value(last["interp"], float(hi)))) <= tol, "%s, at the integer %d: %r" % (tag, hi, gi))
            if not comp and v["seed"] % 9 == 0 and len(Xs) < 40:
                big = np.tile(xs, 100001 // len(xs) + 1)
                ok, gb = r.call("many", ai.interp_at, big)
                if ok:
                    r.expect("many", np.shape(gb) == np.shape(big) and np.allclose(gb[:len(xs)], vals[False], rtol=1e-12, atol=1e-14) and np.allclose(gb[-len(xs):], vals[False], rtol=1e-12, atol=1e-14),
                             "many points at once differ from few")
        finally:
            I.have_Cython = was
    if len(vals) == 2:
        same(r, "compiled", vals[True], vals[False], 1e-3 * tol + 1e-13 * np.abs(vals[False]), lambda k: "compiled and plain at %r" % xs[k])
    # --- nodes as handed out
    ok, nodes = r.call("getNodes", ai.getNodes)
    if ok and r.expect("getNodes", len(nodes) == 2 and len(nodes[0]) == len(nodes[1]) == len(Xs), "nodes and values do not match"):
        with core.quiet():
            nx, ny = np.asarray(nodes[0], dtype=float), np.asarray(nodes[1], dtype=float)
        fin = np.isfinite(nx) & (nx != 0 if cl in ("poleP", "poleN") else True)
        if cl != "val":                     # hands out its own variable
            ft = f.value(last["f"], nx[fin])
            if np.any(fin):
                same(r, "getNodes", ny[fin], ft, 10 * np.max(tol) + 1e-7 * np.abs(ft), lambda k: "node %r" % nx[fin][k])
    # --- the change of variable
    if vt is not None:
        t = np.linspace(m.u0, m.u1, 41)[1:-1]
        with core.quiet():
            ok, x = r.call("transform", vt.inv_var_change, t)
            if ok:
                same(r, "transform", x, m.inv(t), 1e-9 * (1 + np.abs(m.inv(t))), lambda k: "position of %r" % t[k])
                ok, t2 = r.call("transform", vt.var_change, x)
                if ok:
                    same(r, "transform", t2, t, 1e-9, lambda k: "back from %r" % x[k])
                d = np.diff(x)
                r.expect("transform", np.all(d > 0) or np.all(d < 0), "not monotone")
                ok, der = r.call("transform", vt.inv_var_change_deriv, t)
                if ok:
                    h = 1e-6 * (m.u1 - m.u0)
                    num = (m.inv(t + h) - m.inv(t - h)) / (2 * h)
                    skip = (np.abs(t) < 2 * h) | (np.abs(m.inv(t)) > 1e5 * (1 + abs(m.inv(t[len(t) // 2]))))
                    good = ~skip & (np.abs(der) > 0) & (np.abs(num) > 1e-9)
                    same(r, "transform", np.abs(np.asarray(der)[good]), np.abs(num[good]), 1e-3 * np.abs(num[good]) + 1e-6, lambda k: "derivative at %r" % t[good][k])
                r.expect("transform", abs(vt.var_min - m.u0) <= 1e-12 and abs(vt.var_max - m.u1) <= 1e-12, "range %r..%r" % (vt.var_min, vt.var_max))
    # --- derivatives and roots
    if cl in ("cheb", "nol", "nor", "cheb1"):
        h = (m.b - m.a) / 2.0
        d = ai
        for k, terms in ((1, last["d1"]), (2, last["d2"])):
            ok, d = r.call("diff", d.diff)
            if not ok:
                break
            w = cheb(terms, m.s(xs)) / h ** k
            scale = (1 + sum(abs(c) for q, c in terms)) / h ** k
            amplify = {"cheb": 1.0}.get(cl, 30.0)
            ok, g = r.call("diff", d, xs)
            if ok:
                same(r, "diff", g, w, (1e-11 * (1 + ns[-1] ** 2 / 10.0) * (ns[-1] ** 2 / 10.0 if k == 2 else 1.0) * amplify * scale + 1e-11 * size * ns[-1] ** (2 * k) / h ** k), lambda q: "derivative %d at %r" % (k, xs[q]))
        if last["src"] == "roots" and last["exact"]:
            ok, g = r.call("roots", ai.roots)
            if ok:
                w = np.sort(m.x(np.array(sorted(last["roots"])) / 4.0)) if last["roots"] else np.zeros(0)
                g = np.sort(np.asarray(g, dtype=float))
                r.expect("roots", len(g) == len(w) and np.all(np.abs(g - w) <= 1e-7 * (m.b - m.a)), lambda: "roots %s, specification %s" % (g, w))
        if cl == "cheb" and len(Xs) >= 3:
            ok, tr = r.call("trim", ai.trim)
            if ok and tr is not None:
                ok, g = r.call("trim", tr, xs)
                if ok:
                    same(r, "trim", g, want, tol * 10, lambda q: "trimmed, at %r" % xs[q])
    return r


def replay_change(v):
    """a change of variable, its inverse and the derivative of the inverse"""
    from pacal import vartransforms as V
    r = core.Result()
    d = np.array([0.0, 1e-3, 0.1, 0.4, 1.0, 3.0, 7.5, 40.0, 1e3])
    if "cls" in v:
        ok, vt = r.call("change", getattr(V, v["cls"]), *v["args"])
        if not ok:
            return r
        L = v["args"][0] if len(v["args"]) == 2 else 0.0
        cases = [(vt, np.concatenate((L - d[:0:-1], L + d)) if "PM" in v["cls"] else L + d if "PInf" in v["cls"] else L - d[::-1], None)]
    else:
        L, e, o, far = v["L"], v["e"], v["o"], v["far"]
        off = o if o is not None else (1.0 if L == 0 else abs(L) / 2.0)
        if far is not None:
            d = d[d < far]
        ok1, p = r.call("change", V.VarTransformReciprocal_PInf, L, exponent=e, offset=o, U=None if far is None else L + far)
        ok2, m = r.call("change", V.VarTransformReciprocal_MInf, L, exponent=e, offset=o, L=None if far is None else L - far)
        if not (ok1 and ok2):
            return r
        cases = [(p, L + d, off), (m, L - d, off)]
    for vt, x, off in cases:
        ok, t = r.call("change", vt.var_change, x.copy())
        if not ok:
            continue
        t = np.asarray(t, float)
        if off is not None:
            want = (off / (np.abs(x - v["L"]) + off)) ** (1.0 / v["e"])
            r.expect("change", np.allclose(np.abs(t), want, rtol=1e-12), lambda: "%s: %s, specification %s" % (type(vt).__name__, t, want))
        r.expect("change", np.all(np.diff(t) > 0) or np.all(np.diff(t) < 0), lambda: "%s not monotone: %s" % (type(vt).__name__, t))
        lo, hi = sorted((vt.var_min, vt.var_max))
        r.expect("change", np.all(t >= lo - 1e-12) and np.all(t <= hi + 1e-12), lambda: "%s leaves [%g, %g]: %s" % (type(vt).__name__, lo, hi, t))
        ok, y = r.call("change", vt.inv_var_change, t.copy())
        if ok:
            r.expect("change", np.allclose(y, x, rtol=1e-9, atol=1e-10 * (1 + np.abs(x).max() * 1e-2)), lambda: "%s there and back: %s, specification %s" % (type(vt).__name__, y, x))
        tt = 0.02 + 0.96 * (t - lo) / (hi - lo)
        tt = lo + (hi - lo) * tt
        tt = tt[np.abs(tt) > 1e-9]
        ok, der = r.call("change", vt.inv_var_change_deriv, tt.copy())
        if ok:
            h = 1e-4 * np.minimum(np.abs(tt - lo), np.abs(hi - tt))
            up, down = np.asarray(vt.inv_var_change(tt + h)), np.asarray(vt.inv_var_change(tt - h))
            num = (up - down) / (2 * h)
            blur = 16 * np.finfo(float).eps * np.maximum(np.abs(up), np.abs(down)) / h
            r.expect("change", np.all(np.abs(np.abs(der) - np.abs(num)) <= 1e-5 + 1e-5 * np.abs(num) + blur), lambda: "%s derivative %s, specification %s" % (type(vt).__name__, der, num))
        for k in (0, len(t) // 2):
            ok, y = r.call("change", vt.inv_var_change, float(t[k]))
            if ok:
                r.expect("change", abs(y - x[k]) <= 1e-9 * (1 + abs(x[k])), lambda: "%s of a number: %r, specification %r" % (type(vt).__name__, y, x[k]))
    return r


def replay_nodes(v):
    """classes which only promise to pass through their nodes"""
    from pacal import interpolation as I
    r = core.Result()
    a, b = v["a"], v["b"]
    f = lambda x: np.cos(x) + x
    ok, ai = r.call("builds", I.LogXChebyshevInterpolator, f, a, b, par=Par(60))
    if ok:
        X = np.asarray(ai.Xs)
        r.expect("bookkeeping", len(X) == len(ai.Ys) == len(ai.weights), "nodes, values, weights")
        ok, g = r.call("value", ai.interp_at, X)
        if ok:
            r.expect("nodes_exact", np.allclose(g, f(X), rtol=1e-13, atol=1e-13), "value at a node")
    return r


def replay_lagrange(v):
    from pacal import interpolation as I
    r = core.Result()
    sc, sh = v["scale"], v["shift"]
    P = lambda k: sh + sc * np.asarray(k, dtype=float)
    at = {k: float(q[0]) / q[1] for k, q in v["at"]}
    pts = sorted(k for k, q in v["values"])
    want = np.array([float(q[0]) / q[1] for k in pts for k2, q in v["values"] if k2 == k])
    tol = 1e-10 * (1 + np.max(np.abs(want)) + max(abs(x) for x in at.values())) * (1 + 100 * abs(sh) / abs(sc) / 1e3)
    order = lambda S: sorted(S, key=lambda k: (k * 7 + v["seed"]) % 11)
    for C in (I.Interpolator, I.BarycentricInterpolator):
        n0 = order(v["hist"][0]) if C is I.Interpolator else sorted(v["hist"][0])
        ok, ai = r.call("builds", C, P(n0), [at[k] for k in n0])
        if not ok:
            continue
        for S in v["hist"][1:]:
            n1 = order(S)
            ok, z = r.call("add", ai.add_nodes, P(n1), np.array([at[k] for k in n1]))
            if not ok:
                break
        if not ok:
            continue
        have = dict(zip(np.round((np.asarray(ai.Xs) - sh) / sc, 6).tolist(), np.asarray(ai.Ys).tolist()))
        r.expect("bookkeeping", have == {float(k): at[k] for k in at}, lambda: "%s: nodes %s" % (C.__name__, have))
        was = I.have_Cython
        for comp in ([True, False] if was else [False]):
            I.have_Cython = comp
            try:
                ok, g = r.call("value", ai.interp_at, P(pts))
                if ok:
                    same(r, "value", g, want, tol, lambda k: "%s at %r" % (C.__name__, pts[k]))
                ok, g = r.call("value", ai.interp_at, P(sorted(at)))
                if ok:
                    same(r, "nodes_exact", g, np.array([at[k] for k in sorted(at)]), 1e-12 * (1 + np.abs(np.array([at[k] for k in sorted(at)]))), lambda k: "%s at node %d" % (C.__name__, k))
                for k in pts[::3]:
                    ok, g1 = r.call("scalar", ai.interp_at, float(P(k)))
                    if ok:
                        r.expect("scalar", np.ndim(g1) == 0 and abs(float(g1) - want[pts.index(k)]) <= tol, "%s at the number %r: %r" % (C.__name__, k, g1))
            finally:
                I.have_Cython = was
    return r


def replay_tails(v):
    from pacal import interpolation as I
    r = core.Result()
    L, s, sg, k = v["L"], v["s"], (1.0 if v["side"] == "plus" else -1.0), v["k"]

    def f(x):
        z = sg * (np.asarray(x, dtype=float) - L) / s
        with np.errstate(all="ignore"):
            if v["fam"] == "power":
                return (1.0 / (z + 1)) ** k
            if v["fam"] == "expo":
                return np.exp2(-z)
            if v["fam"] == "gauss":
                return np.exp2(-z * z)
            return (1 + z) ** 2 * np.exp2(-z)
    with core.quiet():
        ok, ai = r.call("builds", I.PInfInterpolator if sg > 0 else I.MInfInterpolator, f, L)
    if not ok:
        return r
    x = np.array([L + sg * s * d for d, w in v["points"]])
    want = np.array([float(w[0]) * 2.0 ** w[1] for d, w in v["points"]])
    big = want >= 1e-100
    x, want = x[big], want[big]
    tol = np.where(want > 1e-12, 1e-8 * np.max(want) * np.maximum(1e-2, want), 1e-3 * want)
    if s not in (1.0, 0.25, 3.0, 40.0) or L not in (0.0, 1.0, -2.0, 3.5):       # scale and position far apart
        tol = np.maximum(tol, np.maximum(1e-6 * np.max(want), 0.03 * want))
    with core.quiet():
        ok, g = r.call("value", ai, x)
        if ok:
            same(r, "value", g, want, tol, lambda j: "at %r" % x[j])
            for j in range(len(x)):
                ok, g1 = r.call("scalar", ai, float(x[j]))
                if ok:
                    r.expect("scalar", abs(float(g1) - g[j]) <= 1e-12 * abs(g[j]), "at the number %r: %r, array %r" % (x[j], g1, g[j]))
        ok, nodes = r.call("getNodes", ai.getNodes)
        if ok and r.expect("getNodes", len(nodes[0]) == len(nodes[1]), "nodes and values do not match"):
            nx, ny = np.asarray(nodes[0], dtype=float), np.asarray(nodes[1], dtype=float)
            fin = np.isfinite(nx) & (np.abs(nx) < 1e100)
            ft = f(nx[fin])
            same(r, "getNodes", ny[fin], ft, 1e-6 * np.abs(ft) + 1e-9 * np.max(want), lambda j: "node %r" % nx[fin][j])
    return r


def run(ctx):
    thorough = ctx.tier == "thorough"
    recs = list(ctx.tlc_many([("Interp", "C20_t1" if thorough else "C20_q1"), ("Interp", "C20_t2" if thorough else "C20_q2"),
                              ("Lagrange", "C20_g2" if thorough else "C20_g1"), ("Tails", "C20_a2" if thorough else "C20_a1")]))
    groups, lag, tails = {}, [], {}
    for q in recs:
        if "cl" in q:
            groups.setdefault((q["cl"], q["src"], tuple(sorted(q["id"])), q["maxn"]), []).append(q)
        elif "hist" in q:
            lag.append(q)
        else:
            tails.setdefault((q["fam"], q["k"], tuple(q["start"]), tuple(q["unit"]), q["side"]), []).append(q)
    vecs = []
    for i, key in enumerate(sorted(groups)):
        g = groups[key]
        n = max(s["n"] for s in g)
        st = sorted((s for s in g if s["done"] or s["n"] < n), key=lambda s: s["n"])
        for j in range(3 if thorough and key[1] == "fun" else 1):
            var = i + 5 * j
            name = build(key[0], var, g[0]["f"])[0]
            vecs.append(dict(what="interp", cl=key[0], stages=st, var=var, seed=i + 1000 * j,
                             key="%s %s: %s, at most %d nodes" % (key[0], name, "function %d" % key[2][0] if key[1] == "fun" else "roots %s" % list(key[2]), key[3])))
    ctx.replay(vecs, replay, label="adaptive interpolations", chunksize=8)
    vecs = []
    for i, q in enumerate(lag):
        sc, sh = [(1.0, 0.0), (0.25, 3.0), (-0.5, 1.0), (10.0, -40.0)][i % 4]
        if sc < 0:
            sc = -sc
        vecs.append(dict(what="lagrange", seed=i, scale=sc, shift=sh, hist=q["hist"], values=q["values"], at=q["at"], key="nodes %s degree %d scale %g shift %g" % (q["hist"], q["deg"], sc, sh)))
    ctx.replay(vecs, replay, label="interpolations at given nodes", chunksize=32)
    vecs = []
    for (fam, k, st, un, side), g in sorted(tails.items()):
        L, s = float(st[0]) / st[1], float(un[0]) / un[1]
        vecs.append(dict(what="tails", fam=fam, k=k, L=L, s=s, side=side, points=[(q["dist"], q["val"]) for q in sorted(g, key=lambda q: q["j"])],
                         key="%s %d from %g unit %g to %s" % (fam, k, L, s, side)))
    for a, b in ((1.0, 2.0), (0.125, 9.0), (3.0, 400.0)):
        vecs.append(dict(what="nodes", a=a, b=b, key="logarithmic nodes on [%g,%g]" % (a, b)))
    ctx.replay(vecs, replay, label="tails", chunksize=8)
    vecs = []
    for L in (0.0, 2.0, -3.0, 0.25, 1e3):
        for e in (1, 1.25, 1.5, 2, 2.5, 3, 3.75, 6):
            for o in (None, 1.0, 0.125, 20.0):
                for far in (None, 0.5, 50.0):
                    if thorough or (o, far) in ((None, None), (1.0, 50.0), (0.125, 0.5), (20.0, None)):
                        vecs.append(dict(what="change", L=L, e=e, o=o, far=far, key="change of variable from %g exponent %g offset %s end %s" % (L, e, o, far)))
    for n in ("VarTransformAlgebraic_PMInf", "VarTransformReciprocal_PMInf", "VarTransformAlgebraic_PInf", "VarTransformAlgebraic_MInf"):
        for a in ((0.5,), (1.0,), (4.0,)) if n == "VarTransformAlgebraic_PMInf" else ((),) if "PM" in n else ((0.0, 1.0), (2.0, 3.0), (-1.5, 0.5)):
            vecs.append(dict(what="change", cls=n, args=a, key="change of variable %s%s" % (n, a)))
    ctx.replay(vecs, replay, label="changes of variable", chunksize=8)
