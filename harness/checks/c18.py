"""C18: copulas (spec/Copula.tla)."""
import itertools
import numpy as np
from .. import core

INF = 9999


# --- closed forms -----------------------------------------------------------
class Gen(object):
    """generator of an Archimedean copula: psi, its derivatives, psi^-1"""
    def __init__(self, fam, th):
        self.fam, self.th = fam, th

    def psi(self, s):
        th = self.th
        with np.errstate(all="ignore"):
            if self.fam == "pi":
                return np.exp(-s)
            if self.fam == "clayton":
                return (1 + th * s) ** (-1 / th)
            if self.fam == "gumbel":
                return np.exp(-s ** (1 / th))
            return -np.log1p(np.expm1(-th) * np.exp(-s)) / th

    def d(self, n, s):
        th = self.th
        if self.fam == "pi":
            return (-1) ** n * np.exp(-s)
        if self.fam == "clayton":
            k = 1.0
            for i in range(n):
                k *= -(1 + i * th)
            return k * (1 + th * s) ** (-1 / th - n)
        if self.fam == "gumbel":
            a, p = 1 / th, np.exp(-s ** (1 / th))
            if n == 1:
                return -a * s ** (a - 1) * p
            if n == 2:
                return p * (a * a * s ** (2 * a - 2) - a * (a - 1) * s ** (a - 2))
            return -p * (a ** 3 * s ** (3 * a - 3) - 3 * a * a * (a - 1) * s ** (2 * a - 3) + a * (a - 1) * (a - 2) * s ** (a - 3))
        y = -np.expm1(-th) * np.exp(-s)
        if n == 1:
            return -y / (1 - y) / th
        if n == 2:
            return y / (1 - y) ** 2 / th
        return -y * (1 + y) / (1 - y) ** 3 / th

    def inv(self, u):
        th = self.th
        with np.errstate(all="ignore"):
            if self.fam == "pi":
                return -np.log(u)
            if self.fam == "clayton":
                return (u ** -th - 1) / th
            if self.fam == "gumbel":
                return (-np.log(u)) ** th
            return -np.log(np.expm1(-th * u) / np.expm1(-th))

    def density(self, ss):
        t = sum(ss)
        out = self.d(len(ss), t)
        for s in ss:
            out = out / self.d(1, s)
        return out


RATIONAL = {"pi": lambda k: 2.0 ** -k, "clay1": lambda k: 1.0 / (1 + k), "clay2": lambda k: (2.0 / (2 + k)) ** 2, "clay3": lambda k: (3.0 / (3 + k)) ** 3}


def margin(kind):
    """(variable, quantile, density) of a marginal law"""
    from pacal import UniformDistr, ExponentialDistr, FunDistr, BetaDistr, NormalDistr
    if kind == "u01":
        return UniformDistr(0, 1), lambda u: u, lambda x: np.ones(np.shape(x))
    if kind == "u25":
        return UniformDistr(2, 5), lambda u: 2 + 3 * u, lambda x: np.ones(np.shape(x)) / 3
    if kind == "um":
        return UniformDistr(-1, 1), lambda u: 2 * u - 1, lambda x: np.ones(np.shape(x)) / 2
    if kind == "pow":
        return BetaDistr(2, 1), lambda u: np.sqrt(u), lambda x: 2 * x
    if kind == "exp":
        with np.errstate(all="ignore"):
            return ExponentialDistr(2), lambda u: -np.log1p(-np.asarray(u)) / 2, lambda x: 2 * np.exp(-2 * x)
    from scipy import stats
    return NormalDistr(1, 2), lambda u: stats.norm.ppf(u, 1, 2), lambda x: stats.norm.pdf(x, 1, 2)


def make(v, marg):
    import pacal.depvars.copulas as K
    c, th = v["cls"], v["th"]
    if c == "PiCopula":
        return K.PiCopula(marg)
    if c in ("MCopula", "WCopula"):
        return getattr(K, c)(marg)
    return getattr(K, c)(th, marg)


def replay(v):
    return dict(points=replay_points, coef=replay_coef, law=replay_law)[v["what"]](v)


def gen(v):
    return Gen({"PiCopula": "pi", "ClaytonCopula": "clayton", "GumbelCopula": "gumbel", "GumbelCopula2d": "gumbel", "FrankCopula": "frank", "FrankCopula2d": "frank"}[v["cls"]], v["th"])


def close(r, clause, got, want, tol, what):
    got = np.asarray(got, dtype=float)
    if not r.expect(clause, np.shape(got) == np.shape(want), lambda: "shape %s, specification %s" % (np.shape(got), np.shape(want))):
        return
    bad = ~(np.abs(got - want) <= tol)
    k = int(np.argmax(np.ravel(bad)))
    r.expect(clause, not np.any(bad), lambda: "%s: %r, specification %r" % (what(k), np.ravel(got)[k], np.ravel(want)[k]))


def replay_points(v):
    r = core.Result()
    d = v["d"]
    mk = [margin(k) for k in v["margins"]]
    with core.quiet():
        ok, C = r.call("builds", make, v, [m[0] for m in mk])
    if not ok:
        return r
    bound = v["cls"] in ("MCopula", "WCopula")
    h = v["step"]
    if bound:
        n = v["size"]
        u = lambda k: 0.0 if k == INF else 1.0 - float(k) / n
    else:
        g = gen(v)
        u = lambda k: 0.0 if k == INF else float(g.psi(h * k))
    P = v["points"]
    us = [np.array([u(p[0][i]) for p in P]) for i in range(d)]
    want = np.array([u(p[1]) for p in P])
    if v["rational"]:
        for p, w in zip(P, want):
            r.expect("machine", abs(float(p[2][0]) / p[2][1] - w) <= 1e-12, "generator and specification differ")
    lab = lambda k: "at %s" % [float(x[k]) for x in us]
    with core.quiet():
        ok, got = r.call("C", C.ccdf, *[x.copy() for x in us])
        if ok:
            close(r, "C", got, want, 1e-12 + 1e-9 * want * (want > 0) * (v["cls"] != "PiCopula"), lab)
        keep = [x.copy() for x in us]
        ok, z = r.call("C", C.ccdf, *keep)
        r.expect("pure", all(np.array_equal(a, b) for a, b in zip(keep, us)), "the arguments were changed")
        for k in range(0, len(P), max(1, len(P) // 8)):
            ok, g1 = r.call("scalar", C.ccdf, *[float(x[k]) for x in us])
            if ok:
                r.expect("scalar", np.size(g1) == 1 and abs(float(np.ravel(g1)[0]) - want[k]) <= 1e-9, lambda: "at numbers %s: %r, specification %r" % ([float(x[k]) for x in us], g1, want[k]))
        # with the marginals attached
        xs = [m[1](x) for m, x in zip(mk, us)]
        fin = np.all([np.isfinite(x) for x in xs], axis=0)
        xf = [x[fin] for x in xs]
        ok, got = r.call("joint", C.cdf, *[x.copy() for x in xf])
        if ok:
            close(r, "joint", got, want[fin], 1e-8, lambda k: "at %s" % [float(x[k]) for x in xf])
        # outside the range of the marginals
        if v["margins"][0] in ("u01", "u25", "um"):
            lo, hi = mk[0][1](0.0) - 1.0, mk[0][1](1.0) + 1.0
            rest = [np.array([m[1](0.375)]) for m in mk[1:]]
            ok, got = r.call("joint", C.cdf, np.array([lo]), *rest)
            if ok:
                r.expect("joint", np.allclose(got, 0.0, atol=1e-12), "left of the range: %r" % got)
            ok, got = r.call("joint", C.cdf, np.array([hi]), *rest)
            if ok and d == 2:
                r.expect("joint", np.allclose(got, 0.375, atol=1e-8), "right of the range: %r" % got)
        if bound:
            ok, got = r.call("density", C.cpdf, *us)
            if ok:
                r.expect("density", np.all(np.asarray(got) == 0), "density of a bound")
            return r
        inside = np.array([all(k not in (0, INF) for k in p[0]) for p in P])
        ss = [h * np.array([p[0][i] for p in P], dtype=float)[inside] for i in range(d)]
        ui = [x[inside] for x in us]
        dens = g.density(ss)
        if v["rational"]:
            for p, w in zip([p for p, i in zip(P, inside) if i], dens):
                if p[4]:
                    r.expect("machine", abs(float(p[3][0]) / p[3][1] - w) <= 1e-9 * (1 + w), "density formula and specification differ")
        ok, got = r.call("density", C.cpdf, *[x.copy() for x in ui])
        if ok:
            close(r, "density", got, dens, 1e-8 * (1 + dens), lambda k: "at %s" % [float(x[k]) for x in ui])
        xi = [x[inside] for x in xs]
        ok, got = r.call("joint_density", C.pdf, *[x.copy() for x in xi])
        if ok:
            w = dens.copy()
            for m, x in zip(mk, xi):
                w = w * m[2](x)
            close(r, "joint_density", got, w, 1e-6 * (1 + w), lambda k: "at %s" % [float(x[k]) for x in xi])
        # boxes: mass from the density
        if d == 2 and v["boxes"]:
            t, wt = np.polynomial.legendre.leggauss(24)
            for (i, j) in v["boxes"]:
                a, b, c, e = u(i + 1), u(i), u(j + 1), u(j)
                X, Y = np.meshgrid((a + b) / 2 + (b - a) / 2 * t, (c + e) / 2 + (e - c) / 2 * t)
                W = np.outer(wt, wt) * (b - a) * (e - c) / 4
                ok, f = r.call("density", C.cpdf, X.ravel(), Y.ravel())
                if ok:
                    mass = u(i + j) - 2 * u(i + j + 1) + u(i + j + 2)
                    r.expect("boxes", abs(np.sum(np.asarray(f) * W.ravel()) - mass) <= 1e-7, lambda: "mass of [%g,%g]x[%g,%g]: %r, specification %r" % (a, b, c, e, np.sum(np.asarray(f) * W.ravel()), mass))
        if v["cls"] in ("ClaytonCopula", "GumbelCopula", "FrankCopula"):
            replay_given(r, v, C, g, mk, P, us, xs, lab)
    if v["eliminate"] and d == 3:
        with core.quiet():
            ok, E = r.call("margin", C.eliminate, [v["eliminate"] - 1])
            if ok:
                keep = [i for i in range(3) if i != v["eliminate"] - 1]
                sel = [k for k, p in enumerate(P) if p[0][v["eliminate"] - 1] == 0]
                ok, got = r.call("margin", E.ccdf, *[us[i][sel] for i in keep])
                if ok:
                    close(r, "margin", got, want[sel], 1e-9, lambda k: "margin at %s" % [us[i][sel][k] for i in keep])
    return r


def replay_given(r, v, C, g, mk, P, us, xs, lab):
    """conditional laws: given one coordinate, given two in any order"""
    d, h = v["d"], v["step"]
    for var in ([0], [1]) if d == 2 else ([1], [2, 0]):
        rest = [i for i in range(d) if i not in var]
        n = len(var)
        sel = [k for k, p in enumerate(P) if all(p[0][i] not in (0, INF) for i in var) and all(p[0][i] != INF for i in rest)]
        sv = {i: h * np.array([P[k][0][i] for k in sel], dtype=float) for i in range(d)}
        given = sum(sv[i] for i in var)
        F = g.d(n, given + sum(sv[i] for i in rest)) / g.d(n, given)
        if v["rational"] and var == list(range(n)):
            for k, w in zip(sel, F):
                if P[k][5][n - 1][0] >= 0:
                    r.expect("machine", abs(P[k][5][n - 1][0] / P[k][5][n - 1][1] - w) <= 1e-9, "conditional law and specification differ")
        raw = F * g.d(n, given)
        for i in var:
            raw = raw / g.d(1, sv[i])
        ok, f = r.call("given", C.ccond, list(var))
        if ok:
            inner = [j for j, k in enumerate(sel) if all(P[k][0][i] != 0 for i in rest)]
            if inner:
                ok, got = r.call("given", f, *[us[i][sel][inner] for i in range(d)])
                if ok:
                    close(r, "given", got, raw[inner], 1e-7 * (1 + np.abs(raw[inner])), lambda j: "derivative in %s at %s" % (var, [float(us[i][sel][inner][j]) for i in range(d)]))
        # group the points by what is given
        groups = {}
        for j, k in enumerate(sel):
            groups.setdefault(tuple(P[k][0][i] for i in var), []).append(j)
        for gi, (key, js) in enumerate(sorted(groups.items())):
            if gi % v["stride"]:
                continue
            x = [float(xs[i][sel][js[0]]) for i in var]
            js = [j for j in js if all(P[sel[j]][0][i] != 0 for i in rest)]
            y = [xs[i][sel][js] for i in rest]
            ok, D = r.call("given", C.conditionCDF, list(var), *x)
            if ok:
                ok, got = r.call("given", D, *[z.copy() for z in y])
                if ok:
                    close(r, "given", got, F[js], 2e-7, lambda j: "law given %s = %s at %s" % (var, x, [float(z[j]) for z in y]))
                ok, got = r.call("given", D, *[float(z[0]) for z in y])
                if ok:
                    r.expect("given", abs(float(got) - F[js[0]]) <= 2e-7, lambda: "at a number: %r, specification %r" % (got, F[js[0]]))
            dens = g.d(d, given[js] + sum(sv[i][js] for i in rest)) / g.d(n, given[js])
            for i, z in zip(rest, y):
                dens = dens / g.d(1, sv[i][js]) * mk[i][2](z)
            ok, D = r.call("given", C.condition, list(var), *x)
            if ok:
                ok, got = r.call("given", D, *[z.copy() for z in y])
                if ok:
                    close(r, "given", got, dens, 3e-6 * (1 + dens), lambda j: "density given %s = %s at %s" % (var, x, [float(z[j]) for z in y]))


def rho_exact(fun):
    t, w = np.polynomial.legendre.leggauss(200)
    x = (1 + t) / 2
    X, Y = np.meshgrid(x, x)
    return 12 * np.sum(np.outer(w, w) / 4 * fun(X, Y)) - 3


def replay_coef(v):
    r = core.Result()
    mk = [margin(k) for k in v["margins"]]
    cls, th = v["cls"], v["th"]
    with core.quiet():
        ok, C = r.call("builds", make, v, [m[0] for m in mk])
        if not ok:
            return r
        if cls == "MCopula":
            tau, rho, beta = 1.0, 1.0, 1.0
        elif cls == "WCopula":
            tau, rho, beta = -1.0, -1.0, -1.0
        else:
            g = gen(v)
            F = lambda a, b: g.psi(g.inv(a) + g.inv(b))
            rho = rho_exact(F) if cls != "PiCopula" else 0.0
            beta = 4 * float(F(0.5, 0.5)) - 1
            if cls == "PiCopula":
                tau = 0.0
            elif g.fam == "clayton":
                tau = th / (th + 2)
            elif g.fam == "gumbel":
                tau = 1 - 1 / th
            else:
                from scipy.integrate import quad
                tau = 1 - 4 / th * (1 - quad(lambda t: t / np.expm1(t), 0, th)[0] / th)
        for name, clause, want, tol in (("ctau", "tau", tau, 2e-4), ("rho_s", "rho", rho, 2e-5), ("beta", "beta", beta, 1e-9)) + ((("tau_c", "tau", tau, 1e-6),) if hasattr(C, "tau_c") else ()):
            ok, got = r.call(clause, getattr(C, name), *((0, 1) if name in ("ctau", "rho_s") else ()))
            if ok:
                r.expect(clause, np.size(got) == 1 and abs(float(np.ravel(got)[0]) - want) <= tol, lambda: "%s %r, specification %r" % (name, got, want))
        if cls not in ("MCopula", "WCopula"):
            for a, b in ((0, 1), (1, 0)):
                ok, got = r.call("tau", C.tau, a, b)
                if ok:
                    r.expect("tau", abs(float(got) - tau) <= 2e-4, lambda: "tau %r, specification %r" % (got, tau))
            if v["margins"] == ("u01", "u01"):
                for a, b in ((0, 1), (1, 0)):
                    ok, got = r.call("rho", C.corrcoef, a, b)       # of uniform marginals
                    if ok:
                        r.expect("rho", abs(float(got) - rho) <= 2e-4, lambda: "corrcoef %r, specification %r" % (got, rho))
            else:
                sd = [m[0].std() for m in mk]
                for a, b in ((0, 0), (1, 1)):
                    ok, got = r.call("rho", C.corrcoef, a, b)
                    if ok:
                        r.expect("rho", abs(float(got) - 1) <= 1e-7, lambda: "corrcoef of a variable with itself %r" % got)
                    ok, got = r.call("rho", C.cov, a, b)
                    if ok:
                        r.expect("rho", abs(float(got) - sd[a] ** 2) <= 1e-7, lambda: "variance %r, specification %r" % (got, sd[a] ** 2))
        if cls in ("ClaytonCopula", "GumbelCopula", "FrankCopula"):
            # sampling: the second number is where the conditional law reaches the drawn one
            import pacal.depvars.copulas as K
            t = np.array([0.05, 0.3, 0.5, 0.77, 0.96])
            first = mk[0][1](np.array([0.4, 0.1, 0.9, 0.6, 0.25]))
            keep = K.UniformDistr

            class Drawn(keep):
                def rand(self, n=None, cache=None):
                    return t[:n].copy()
            K.UniformDistr = Drawn
            mk[0][0].rand_invcdf = lambda n, use_interpolated=True: first[:n].copy()
            try:
                ok, got = r.call("sample", C.rand2d_invcdf, 5)
            finally:
                K.UniformDistr = keep
                del mk[0][0].rand_invcdf
            if ok:
                u0, u1 = np.array([0.4, 0.1, 0.9, 0.6, 0.25]), None
                x = np.asarray(got[1], dtype=float)
                u1 = {"u01": lambda x: x, "pow": lambda x: x ** 2}[v["margins"][1]](x)
                F = g.d(1, g.inv(u0) + g.inv(u1)) / g.d(1, g.inv(u0))
                close(r, "sample", F, t, 1e-6, lambda k: "conditional law at the sampled %g" % x[k])
        if v["matrix"]:
            for name, want, tol in (("ctau", tau, 2e-4), ("rho_s", rho, 2e-5)):
                ok, got = r.call(name[-3:].strip("_"), getattr(C, name))
                if ok:
                    close(r, "matrix", got, np.array([[1.0, want], [want, 1.0]]), tol, lambda k: name)
    return r


def replay_law(v):
    """law of an operation on the pair, from the conditional law of one given the other"""
    from pacal.depvars.models import TwoVarsModel
    from scipy.integrate import quad
    r = core.Result()
    mk = [margin(k) for k in v["margins"]]
    with core.quiet():
        ok, C = r.call("builds", make, v, [m[0] for m in mk])
        if not ok:
            return r
        X, Y = mk[0][0], mk[1][0]
        Z = {"add": lambda: X + Y, "sub": lambda: X - Y, "mul": lambda: X * Y, "div": lambda: X / Y}[v["op"]]()
        ok, M = r.call("law", TwoVarsModel, C, Z)
        if not ok:
            return r
        ok, D = r.call("law", M.eval)
        if not ok:
            return r
        g = gen(v)

        def F(w, x):                        # marginal distribution functions of the supported margins
            if w == "u01":
                return min(max(x, 0.0), 1.0)
            if w == "u25":
                return min(max((x - 2) / 3.0, 0.0), 1.0)
            return min(max(x, 0.0), 1.0) ** 2

        def cond(uu, vv):                   # P(V <= vv | U = uu)
            if vv <= 0:
                return 0.0
            if vv >= 1:
                return 1.0
            s = g.inv(uu) + g.inv(vv)
            return float(g.d(1, s) / g.d(1, g.inv(uu)))
        inv = {"add": lambda x, z: z - x, "sub": lambda x, z: x - z, "mul": lambda x, z: z / x, "div": lambda x, z: x / z}[v["op"]]
        for z in v["zs"]:
            def integrand(uu):
                x = float(mk[0][1](uu))
                p = cond(uu, F(v["margins"][1], inv(x, z)))
                return p if v["op"] in ("add", "mul") else 1 - p
            want = quad(integrand, 0, 1, limit=400, points=v["cuts"](z) if callable(v["cuts"]) else None, epsabs=1e-8)[0]
            ok, got = r.call("law", D.cdf, z)
            if ok:
                r.expect("law", abs(float(got) - want) <= v["tol"], lambda: "probability up to %g: %r, specification %r" % (z, got, want))
    return r


CLASSES = [("PiCopula", 0.0)] + [("ClaytonCopula", t) for t in (0.2, 0.5, 1.0, 2.0, 6.0)] + [("GumbelCopula", t) for t in (1.0, 1.25, 2.0, 3.5)] + \
    [("FrankCopula", t) for t in (0.5, 2.0, 7.0)] + [("GumbelCopula2d", t) for t in (1.25, 2.0, 3.5)] + [("FrankCopula2d", t) for t in (-3.0, 0.5, 2.0, 7.0)] + [("MCopula", 0.0), ("WCopula", 0.0)]
SPECFAM = {("PiCopula", 0.0): "pi", ("ClaytonCopula", 1.0): "clay1", ("ClaytonCopula", 0.5): "clay2", ("MCopula", 0.0): "M", ("WCopula", 0.0): "W"}
MARGINS = [("u01", "u01", "u01"), ("u25", "pow", "um"), ("um", "exp", "u01"), ("exp", "u25", "pow"), ("pow", "nrm", "exp"), ("nrm", "um", "u25")]


def run(ctx):
    thorough = ctx.tier == "thorough"
    by = {}
    for q in ctx.tlc_many([("Copula", "C18_t1" if thorough else "C18_q1")]):
        by.setdefault((q["fam"], len(q["pt"])), []).append(q)
    size = 12 if thorough else 6
    vecs = []
    for i, (cls, th) in enumerate(CLASSES):
        fam = SPECFAM.get((cls, th), "arch")
        steps = [np.log(2.0)] if fam == "pi" else [1.0] if fam != "arch" else []
        steps = steps + ([] if fam in ("pi", "M", "W") else [0.05, 0.4, 3.0])
        for d in (2, 3):
            if d == 3 and cls.endswith("2d"):
                continue
            for j in range(6 if thorough else 3):
                mg = MARGINS[(i + 2 * j + d) % 6 if j else 0][:d]
                for n, st in enumerate(steps):
                    if not thorough and len(steps) > 1 and (n + j + i) % 2:
                        continue
                    rat = fam != "arch" and n == 0
                    pts = [(q["pt"], q["join"], q["value"], q["dens"], q["hasd"], q["given"]) for q in by[(fam if rat else "arch", d)]]
                    vecs.append(dict(what="points", cls=cls, th=th, d=d, margins=mg, step=st, rational=rat, stride=1 if thorough else 3, size=size, points=pts,
                                     eliminate=(1 + (i + j) % 3) if d == 3 and cls in ("ClaytonCopula", "GumbelCopula", "FrankCopula") else 0,
                                     boxes=[(1, 1), (2, 3), (4, 1)] if d == 2 and cls not in ("MCopula", "WCopula") else [],
                                     key="%s(%g) step %.3g on %s" % (cls, th, st, " ".join(mg))))
    ctx.replay(vecs, replay, label="copulas at lattice points", chunksize=2)
    vecs = []
    for i, (cls, th) in enumerate(CLASSES):
        vecs.append(dict(what="coef", cls=cls, th=th, margins=MARGINS[i % 2][:2], matrix=cls in ("PiCopula", "FrankCopula", "MCopula"), key="coefficients of %s(%g)" % (cls, th)))
    for cls, th in (("PiCopula", 0.0), ("ClaytonCopula", 1.0), ("FrankCopula", 2.0), ("FrankCopula2d", -3.0), ("GumbelCopula", 1.25)):
        laws = [("u01", "u01", "add", (0.5, 0.9, 1.2, 1.7)), ("u01", "u01", "sub", (-0.5, 0.1, 0.6)), ("u01", "u01", "mul", (0.1, 0.4, 0.8)),
                ("u25", "u25", "mul", (5.0, 9.0, 13.0, 21.0)), ("u25", "u25", "div", (0.5, 0.9, 1.3, 2.2))]
        if thorough:
            laws += [("u01", "u25", "add", (2.5, 3.0, 4.4)), ("u01", "u25", "sub", (-3.5, -2.0)), ("u01", "u25", "mul", (1.0, 2.5)), ("u01", "u25", "div", (0.1, 0.2, 0.4)),
                     ("u25", "u01", "add", (2.5, 3.0, 4.4)), ("u25", "u01", "sub", (1.5, 2.0, 4.0)), ("u25", "u25", "add", (5.0, 6.5, 9.0)), ("u25", "u25", "sub", (-2.0, -0.5, 1.0))]
        for a, b, op, zs in laws:
            # corners with an unbounded density or a pole of the resulting one are integrated coarsely
            tol = 6e-3 if (a, b, op) == ("u01", "u01", "mul") else 3e-4 if cls in ("ClaytonCopula", "GumbelCopula") else 3e-5
            vecs.append(dict(what="law", cls=cls, th=th, margins=(a, b), op=op, zs=zs, cuts=None, tol=tol, key="%s of %s %s under %s(%g)" % (op, a, b, cls, th)))
    ctx.replay(vecs, replay, label="coefficients and laws", chunksize=1)
