"""C11: piecewise functions denote the functions the specification computes (spec/Piecewise.tla)."""
import math
from fractions import Fraction
import numpy as np
from .. import calc, core

INF = float("inf")
INIT = {}


# ---- the function of the specification, in floating point -------------------------
def num(q):
    v = Fraction(q[0], q[1])
    return -INF if v <= -1000 else INF if v >= 1000 else float(v)


class Piece(object):
    def __init__(self, terms):
        self.terms = [(float(Fraction(*t)), s, k, float(Fraction(*c))) for t, s, k, c in terms]

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        y = np.zeros_like(x)
        for t, s, k, c in self.terms:
            u = s * (x - t)
            y = y + c * (u ** (k // 2) if k % 2 == 0 else u ** (k / 2.0))
        return y if y.ndim else float(y)

    def prim(self, x, side):
        """antiderivative at x, approached from the given side; None if infinite"""
        tot = 0.0
        for t, s, k, c in self.terms:
            e = k / 2.0 + 1
            if math.isinf(x):
                if e >= 0:
                    return None
                continue
            u = s * (x - t)
            if u == 0:
                if e <= 0:
                    return None
                continue
            if e == 0:
                tot += c * s * math.log(abs(u))
            else:
                tot += c * s * (u ** e if k % 2 else u ** int(e)) / e
        return tot

    def size(self, x):
        """largest term at x: scale of rounding errors"""
        return max([INF if x == t and k < 0 else abs(c) * abs(x - t) ** (k / 2.0) for t, s, k, c in self.terms] or [0.0])

    def deriv(self, x):
        return sum(c * (k / 2.0) * s * (s * (x - t)) ** (k / 2.0 - 1 if k % 2 else k // 2 - 1) for t, s, k, c in self.terms if k != 0)


class Fun(object):
    def __init__(self, f):
        self.pieces = [(num(s["a"]), num(s["b"]), s["kind"], Piece(s["p"])) for s in f["segs"]]
        self.atoms = [(num(x), float(Fraction(*w))) for x, w in f["atoms"]]

    def breaks(self):
        return sorted({x for a, b, k, p in self.pieces for x in (a, b) if math.isfinite(x)} | {x for x, w in self.atoms})

    def at(self, x):
        """values the function may take at x (one inside a piece, two at a common end)"""
        v = [p(x) for a, b, k, p in self.pieces if a < x < b]
        if v:
            return v
        ends = [(p(x) if abs(p.size(x)) < INF else None) for a, b, k, p in self.pieces if x == a or x == b]
        return ends or [0.0]

    def integral(self, a, b):
        """over (a, b) without atoms at a and b; None if it does not exist"""
        tot = sum(w for x, w in self.atoms if a < x < b)
        for l, u, k, p in self.pieces:
            lo, hi = max(a, l), min(b, u)
            if lo < hi:
                A, B = p.prim(lo, 1), p.prim(hi, -1)
                if A is None or B is None:
                    return None
                tot += B - A
        return tot

    def points(self):
        out = []
        for a, b, k, p in self.pieces:
            if a == -INF:
                out += [b - 0.3, b - 2.1, b - 17.0]
            elif b == INF:
                out += [a + 0.3, a + 2.1, a + 17.0]
            else:
                out += [a + (b - a) * t for t in (0.03, 0.26, 0.5, 0.71, 0.97)]
        return out

    def outside(self):
        br = self.breaks()
        if not br:
            return [0.0]
        out = [br[0] - 0.7, br[-1] + 0.9] + [(x + y) / 2 for x, y in zip(br, br[1:])]
        return [x for x in out if not any(a <= x <= b for a, b, k, p in self.pieces)]


def make_segs(F):
    from pacal import segments as S
    out = []
    for a, b, kind, p in F.pieces:
        if kind == "c":
            out.append(S.ConstSegment(a, b, p(0.5 * (a + b))))
        elif kind == "s":
            out.append(S.Segment(a, b, p))
        elif kind in ("pl", "pr"):
            out.append(S.SegmentWithPole(a, b, p, left_pole=(kind == "pl")))
        elif kind == "mi":
            out.append(S.MInfSegment(b, p))
        else:
            out.append(S.PInfSegment(a, p))
    return out + [S.DiracSegment(x, w) for x, w in F.atoms]


def build(F, order, cls):
    from pacal import segments as S
    items = make_segs(F)
    fun = getattr(S, cls)([])
    for i in order:
        fun.addSegment(items[i - 1])
    return fun


def apply(f, st, lib):
    op, c = st["op"], [float(Fraction(*q)) for q in st["c"]]
    if st["o"]:
        g = f if st["o"] == "self" else lib[st["o"]]
        return {"add": lambda: f + g, "sub": lambda: f - g, "mul": lambda: f * g, "div": lambda: f / g,
                "rsub": lambda: g - f, "rdiv": lambda: g / f}[op]()
    return {"addn": lambda: f + c[0], "raddn": lambda: c[0] + f, "subn": lambda: f - c[0], "rsubn": lambda: c[0] - f,
            "muln": lambda: f * c[0], "rmuln": lambda: c[0] * f, "divn": lambda: f / c[0], "rdivn": lambda: c[0] / f,
            "pow": lambda: f ** int(c[0]), "shift": lambda: f.copyShiftedAndScaled(c[0], c[1]),
            "split": lambda: f.splitByPoints(c), "restrict": lambda: f.restrictToInterval(c[0], c[1]),
            "interp": lambda: f.toInterpolated()}[op]()


def near(a, b, tol, size=1.0):
    return a == b or abs(a - b) <= tol * max(size, abs(b), 1e-300)


def same(r, clause, f, F, tol, light=False, nanends=False, floor=0.0):
    """structure, values, atoms"""
    segs = f.segments
    for s, t in zip(segs, segs[1:]):
        r.expect(clause + "-order", s.a <= s.b and s.b <= t.a + 1e-12, lambda: "%s before %s" % (s, t))
    got = [(d.a, float(d.f)) for d in f.getDiracs()]
    want = F.atoms
    r.expect(clause + "-atoms", len(got) == len(want) and all(near(x, y, 1e-12) and near(v, w, 1e-12) for (x, v), (y, w) in zip(got, want)),
             lambda: "atoms %s, expected %s" % (got, want))
    br = [x for x in f.getBreaks() if math.isfinite(x)]
    r.expect(clause + "-breaks", br == sorted(br) and all(any(near(x, y, 1e-12) for y in br) for x in F.breaks()),
             lambda: "break points %s, expected %s" % (br, F.breaks()))
    atoms = [x for x, w in F.atoms]
    pts = F.points() if not light else F.points()[::3]
    pts = [x for x in pts if all(abs(x - a) > 1e-9 for a in atoms)]
    vals = {x: F.at(x)[0] for x in pts}
    vals.update({x: 0.0 for x in F.outside()})
    sizes = {x: max([floor] + [p.size(x) for a, b, k, p in F.pieces if a <= x <= b] or [1.0]) for x in vals}      # scale of rounding errors
    for x, v in vals.items():
        ok, y = r.call(clause + "-value", f, x)
        if ok:
            r.expect(clause + "-value", near(float(y), v, tol, sizes[x]), lambda: "f(%r) = %r, expected %.12g" % (x, float(y), v))
    xs = np.array(sorted(vals))
    if len(segs) and xs.size:
        ok, ys = r.call(clause + "-array", f, xs)
        if ok:
            for x, y in zip(xs, ys):
                r.expect(clause + "-array", near(float(y), vals[x], tol, sizes[x]), lambda: "f([..%r..]) = %r, expected %.12g" % (x, float(y), vals[x]))
    if light:
        return
    for x in F.breaks():
        cand = F.at(x)
        if x in atoms or None in cand:
            continue
        if all(math.isfinite(c) for c in cand):
            for how, y in (("value", r.call(clause + "-value", f, x)), ("array", r.call(clause + "-array", f, np.array([x])))):
                if y[0]:
                    y = float(np.ravel(y[1])[0])
                    if nanends and not math.isfinite(y):       # zero times a pole
                        continue
                    r.expect(clause + "-end", any(near(y, c, max(tol, 1e-9)) for c in cand + ([0.0] if len(cand) == 1 and how == "array" else [])),
                             lambda: "%s at the break point %r = %r, expected one of %s" % (how, x, y, cand))
    for x in sorted(set(vals) | {x for x in F.breaks() if math.isfinite(x)}):
        ok, s = r.call(clause + "-find", f.findSegment, x)
        if ok:
            inside = x in atoms or any(a <= x <= b for a, b, k, p in F.pieces)
            r.expect(clause + "-find", (s is not None and s.a <= x <= s.b) if inside else s is None,
                     lambda: "findSegment(%r) = %s" % (x, s))


def calculus(r, f, F, tol):
    br = F.breaks()
    atoms = dict(F.atoms)
    pts = sorted(set(br + [(x + y) / 2 for x, y in zip(br, br[1:])] + [br[0] - 0.7, br[-1] + 0.9])) if br else [0.0, 1.0]
    ends = [-INF] + pts + [INF]
    val = {}
    # a few intervals of every kind: from break points, from inside, unbounded
    pairs = [(a, b) for i, a in enumerate(ends) for j, b in enumerate(ends) if i < j and ((i + 2 * j) % 3 == 0 or i == 0 or j == len(ends) - 1 or j == i + 1)]
    whole = max([abs(F.integral(a, b)) for a, b in pairs if F.integral(a, b) is not None] + [1.0])
    for a, b in pairs:
        want = F.integral(a, b)
        if want is None:
            continue
        ok, got = r.call("integrate", f.integrate, None if a == -INF and len(br) % 2 else a, None if b == INF and len(br) % 2 else b)
        if ok:
            val[a, b] = got
            r.close("integrate", float(got), want, tol * whole, "integral over (%g, %g)" % (a, b))
    for i in range(1, len(ends) - 1):
        a, x, b = ends[i - 1], ends[i], ends[i + 1]
        if (a, x) in val and (x, b) in val and (a, b) in val:
            r.close("adjacent", float(val[a, x] + val[x, b] + atoms.get(x, 0.0)), float(val[a, b]), 2 * tol * whole, "integrals over (%g, %g), {%g}, (%g, %g) and over all" % (a, x, x, x, b))
    for x, w in F.atoms:
        ok, got = r.call("point", f.integrate, x, x)
        if ok:
            r.close("point", float(got), w, 1e-12, "integral over the point %g" % x)
    if not f.segments:
        return
    inner = [x for x in pts if x not in atoms]
    if all(F.integral(-INF, x) is not None for x in inner + [INF]):
        ok, C = r.call("cumint", f.cumint)
        if ok:
            for x in inner:
                okc, got = r.call("cumint", C, x)
                if okc:
                    r.close("cumint", float(got), F.integral(-INF, x), tol * whole, "integral up to %g" % x)
            for x in F.atoms:
                okc, got = r.call("cumint", C, x[0])
                if okc:
                    lo = F.integral(-INF, x[0])
                    r.expect("cumint", near(float(got), lo, tol * whole) or near(float(got), lo + x[1], tol * whole), lambda: "integral up to the atom %g = %r" % (x[0], got))
            for s, t in zip(C.segments, C.segments[1:]):
                r.expect("cumint-order", s.b <= t.a + 1e-12, lambda: "%s before %s" % (s, t))
    if all(F.integral(x, INF) is not None for x in inner + [-INF]):
        ok, C = r.call("ccumint", f.ccumint)
        if ok:
            for x in inner:
                okc, got = r.call("ccumint", C, x)
                if okc:
                    r.close("ccumint", float(got), F.integral(x, INF), tol * whole, "integral from %g" % x)
    tot = F.integral(-INF, INF)
    pos = all(w >= 0 for x, w in F.atoms) and all(F.at(x)[0] >= 0 for x in F.points()) and all(v is None or not v < 0 for x in br for v in F.at(x))
    if pos and tot is not None and tot > 0:
        ok, C = r.call("inverse", lambda: (f * (1.0 / tot)).cumint())
        if ok:
            for q in (0.07, 0.31, 0.5, 0.83, 0.96):
                oki, x = r.call("inverse", C.inverse, q)
                if oki and r.expect("inverse", np.ndim(x) == 0 and math.isfinite(x), lambda: "inverse(%g) = %r" % (q, x)):
                    d = 1e-6 * max(1.0, abs(x))
                    lo, hi = F.integral(-INF, x - d), F.integral(-INF, x + d) + atoms.get(x + d, 0.0)
                    r.expect("inverse", lo / tot <= q + 1e-9 and hi / tot >= q - 1e-9, lambda: "inverse(%g) = %r where the function runs from %.10g to %.10g" % (q, x, lo / tot, hi / tot))
            oki, xs = r.call("inverse-array", C.inverse, np.array([0.07, 0.5, 0.96]))
            if oki:
                for q, x in zip((0.07, 0.5, 0.96), xs):
                    oki, y = r.call("inverse-array", C.inverse, q)
                    if oki:
                        r.close("inverse-array", float(x), float(y), 1e-12, "inverse of an array")
    smooth = all(math.isfinite(a) and math.isfinite(b) and k in "cs" for a, b, k, p in F.pieces) and F.pieces and not any(s.hasPole() for s in f.segments)
    if smooth:
        ok, D = r.call("diff", f.diff)
        if ok:
            for a, b, k, p in F.pieces:
                for t in (0.21, 0.5, 0.83):
                    x = a + t * (b - a)
                    if x in atoms:
                        continue
                    okd, got = r.call("diff", D, x)
                    if okd:
                        r.close("diff", float(got), p.deriv(x), 1e-6 * max(1.0, p.size(a), p.size(b), abs(p.deriv(x))), "derivative at %g" % x)
        if not F.atoms:
            grid = np.concatenate([np.linspace(a, b, 41) for a, b, k, p in F.pieces])
            v = np.concatenate([np.atleast_1d(p(np.linspace(a, b, 41))) for a, b, k, p in F.pieces])
            sc = max(1.0, np.max(abs(v)))
            step = 2e-3 * sc
            for name, best, sgn in (("max_", np.max(v), 1), ("min_", np.min(v), -1)):
                ok, mx = r.call(name, getattr(f, name))
                if ok:
                    m, x = float(mx[0]), float(mx[1])
                    r.expect(name, sgn * (m - best) >= -1e-9 * sc and sgn * (m - best) <= step, lambda: "%s() = %r at %r, best value on a grid %.12g" % (name, m, x, best))
                    cand = F.at(x)
                    r.expect(name, any(near(m, c, 1e-6, sc) for c in cand + [p(x) for a, b, k, p in F.pieces if a <= x <= b]), lambda: "%s() = %r at %r, where the function is %s" % (name, m, x, cand))
            ok, roots = r.call("roots", f.roots)
            if ok and all(p.terms for a, b, k, p in F.pieces):
                for x in roots:
                    r.expect("roots", any(a - 1e-9 <= x <= b + 1e-9 and abs(p(min(max(x, a), b))) <= 1e-6 * sc for a, b, k, p in F.pieces), lambda: "root %r where the function is %s" % (x, F.at(x)))
                for a, b, k, p in F.pieces:
                    g = np.linspace(a, b, 41)
                    y = p(g)
                    for u, w, yu, yw in zip(g, g[1:], y, y[1:]):
                        if yu * yw < 0:
                            r.expect("roots", any(u - 1e-9 <= x <= w + 1e-9 for x in roots), lambda: "no root in [%g, %g] (found %s)" % (u, w, list(roots)))


def constructors(r, F, tol):
    from pacal import segments as S
    segs = sorted(make_segs(F))
    ok, f = r.call("from-segments", lambda: S.PiecewiseFunction(segments=segs))
    if ok:
        same(r, "from-segments", f, F, tol)
    P = F.pieces
    if P and all(P[i][1] == P[i + 1][0] for i in range(len(P) - 1)):
        pts = [P[0][0]] + [p[1] for p in P]
        lp = [k == "pl" for a, b, k, p in P] + [False]
        rp = [False] + [k == "pr" for a, b, k, p in P]
        def fun(x):
            x = np.asarray(x, dtype=float)
            y = np.zeros_like(x)
            for i, (a, b, k, p) in enumerate(P):
                m = (x >= a) & ((x < b) | (i == len(P) - 1))
                if k == "pr":
                    m = (x >= a) & (x < b)
                y = np.where(m, p(x), y)
            return y if y.ndim else float(y)
        G = Fun({"segs": [], "atoms": []})
        G.pieces = P
        ok, f = r.call("from-function", lambda: S.PiecewiseFunction(fun=fun, breakPoints=pts, lpoles=np.array(lp), rpoles=np.array(rp)))
        if ok:
            same(r, "from-function", f, G, tol)
            kinds = ["m" if s.isMInf() else "p" if s.isPInf() else "l" if s.hasLeftPole() else "r" if s.hasRightPole() else "s" for s in f.segments]
            r.expect("from-function", kinds == [{"mi": "m", "pi": "p", "pl": "l", "pr": "r"}.get(k, "s") for a, b, k, p in P], lambda: "pieces of kinds %s" % kinds)


def replay(v):
    r = core.Result()
    F = Fun(v["f"])
    F0 = Fun(INIT[v["name"]])
    lib = {n: build(Fun(g), range(1, len(g["segs"]) + len(g["atoms"]) + 1), v["cls"]) for n, g in INIT.items()}
    f = build(F0, v["order"], v["cls"])
    interp = False
    prev = None
    for st in v["steps"]:
        prev = (f, st)
        ok, f = r.call(st["op"], apply, f, st, lib)
        if not ok:
            return r
        interp = interp or st["op"] == "interp"
    # a pole away from zero is resolved to the spacing of floating point numbers there
    far = any(k in ("pl", "pr") and x != 0 for G in [F] + [Fun(INIT[n]) for n in [v["name"]] + [st["o"] for st in v["steps"] if st["o"] in INIT]]
              for a, b, k, p in G.pieces for x in (a if k == "pl" else b,))
    # interpolation on infinite intervals and next to poles is made for functions of one sign (densities)
    signs = lambda p, a, b: {v > 0 for v in p(np.linspace(max(a, b - 1e3), min(b, a + 1e3), 60)[1:-1]) if math.isfinite(v)}
    # (densities, vanishing at infinity)
    if interp and any(k in ("mi", "pi") and (signs(p, a, b) != {True} or any(t[2] >= 0 for t in p.terms)) for a, b, k, p in F.pieces):
        return r
    if interp and any(s.hasPole() and any(x <= s.a and s.b <= y and signs(p, s.a, s.b) != {True} for x, y, k, p in F.pieces) for s in f.segments):
        return r
    tol = (1e-4 if far and len(v["steps"]) == 1 else 1e-3 if far else 1e-8) if interp else 1e-11
    same(r, "f", f, F, tol, floor=1.0 if len(v["steps"]) > 1 else 0.0, nanends=any(n in ("pole", "rpole", "midp") for n in [v["name"]] + [st["o"] for st in v["steps"]]))
    if interp and far and len(v["steps"]) > 1:
        return r
    calculus(r, f, F, (1e-5 if interp else 1e-6) if far else 1e-7 if len(v["steps"]) > 1 else 1e-8)
    if not v["steps"]:
        if v["order"] == sorted(v["order"]):
            constructors(r, F, tol)
    else:
        # operands are left alone, also when the result is added to later
        from pacal import segments as S
        for d in list(f.getDiracs()):
            f.addSegment(S.DiracSegment(d.a, 1.0))
        if len(v["steps"]) == 1:
            same(r, "operand", prev[0], F0, 1e-11, light=True)
        for st in v["steps"]:
            if st["o"] in INIT:
                same(r, "operand", lib[st["o"]], Fun(INIT[st["o"]]), 1e-11, light=True)
    return r


def run(ctx):
    cfgs = ["C11_q1", "C11_q2"] + (["C11_t1"] if ctx.tier == "thorough" else [])
    recs = ctx.tlc_many([("MC_Piecewise", c) for c in cfgs])
    for rec in recs:
        if not rec["steps"]:
            INIT[rec["name"]] = rec["f"]
    vecs, seen = [], set()
    for rec in recs:
        key = "%s%s %s" % (rec["name"], "" if rec["order"] == sorted(rec["order"]) else "%s" % rec["order"],
                           " ".join("%s(%s)" % (s["op"], s["o"] or ",".join("%d/%d" % tuple(q) for q in s["c"])) for s in rec["steps"]))
        if key not in seen:
            seen.add(key)
            vecs.append(dict(rec, key=key.strip(), cls="PiecewiseFunction" if len(vecs) % 3 else "PiecewiseDistribution"))
    limit = 40000
    ctx.replay(vecs[:: -(-len(vecs) // limit)], replay, label="piecewise functions after operations")
