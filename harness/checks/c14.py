"""C14: answers are a function of how a variable was built, not of what was asked or built before (spec/Session.tla)."""
import copy
import math
import os
import pickle
import re
import sys
import types
import numpy as np
from .. import core

XS = np.array([-2.5, -1.0, -0.4375, 0.0, 0.3125, 0.6875, 1.0, 1.28125, 1.75, 2.375, 3.0, 5.5, 40.0])
PS = np.array([0.015625, 0.25, 0.4375, 0.6875, 0.984375])


def f3(x):
    return 3 * x ** 2


def leaf(name):
    import pacal as P
    import pacal.standard_distr as S
    sym = "L" + name
    mk = {
        "U": lambda: P.UniformDistr(0.5, 2, sym=sym), "N": lambda: P.NormalDistr(1, 0.5, sym=sym),
        "D": lambda: P.DiscreteDistr(xi=[2, -1, 1], pi=[0.3, 0.2, 0.5], sym=sym), "E": lambda: P.ExponentialDistr(2, sym=sym),
        "C": lambda: P.CauchyDistr(sym=sym), "X2": lambda: P.ChiSquareDistr(1, sym=sym), "K": lambda: P.ConstDistr(2, sym=sym),
        "M": lambda: P.MixDistr([0.375, 0.625], [P.UniformDistr(0, 1), P.ConstDistr(1.0)]),
        "G": lambda: P.NormalDistr(1, 0.5) | P.Gt(0.25), "B": lambda: P.BetaDistr(0.5, 0.5, sym=sym),
        "F": lambda: P.FunDistr(f3, breakPoints=[0, 1], sym=sym), "L": lambda: P.PoissonDistr(2, sym=sym),
        "T": lambda: P.TrapezoidalDistr(0, 1, 2, 4, sym=sym), "P": lambda: P.ParetoDistr(3, sym=sym),
        "H": lambda: abs(P.NormalDistr(0, 1)), "S": lambda: P.SemicircleDistr(1, sym=sym)}
    return mk[name]()


def op(name, a, b=None):
    import pacal as P
    if b is not None:
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b,
                "min": lambda: P.min(a, b), "max": lambda: P.max(a, b), "mix": lambda: P.MixDistr([0.25, 0.75], [a, b])}[name]()
    return {"neg": lambda: -a, "abs": lambda: abs(a), "addc": lambda: a + 1, "rsubc": lambda: 1.5 - a, "mulc": lambda: 2 * a, "divc": lambda: a / -2,
            "rdivc": lambda: 1 / a, "sqr": lambda: a ** 2, "powc": lambda: a ** 0.5, "exp": lambda: P.exp(a), "minc": lambda: P.min(a, 1),
            "maxc": lambda: P.max(0.5, a), "gt": lambda: a | P.Gt(0.75), "lt": lambda: a | P.Lt(1.5), "bt": lambda: a | P.Between(0.5, 1.5),
            "sign": lambda: P.sign(a), "atan": lambda: P.atan(a), "tanh": lambda: P.tanh(a), "iidsum": lambda: P.iid_sum(a, 3),
            "iidmax": lambda: P.iid_max(a, 3), "iidmedian": lambda: P.iid_median(a, 3), "iidprod": lambda: P.iid_prod(a, 2),
            "mixc": lambda: P.MixDistr([0.5, 0.5], [a, P.ConstDistr(1.0)])}[name]()


OPS = {"neg", "abs", "addc", "rsubc", "mulc", "divc", "rdivc", "sqr", "powc", "exp", "minc", "maxc", "gt", "lt", "bt", "sign", "atan", "tanh",
       "iidsum", "iidmax", "iidmedian", "iidprod", "mixc", "add", "sub", "mul", "div", "min", "max", "mix"}
SLOW = {"invp", "randinv", "hist"}
SAMPLING = {"rand", "rand1", "randinv", "hist"}


def pieces(f):
    """what a piecewise function is: its pieces, atoms and values"""
    return [[type(s).__name__, s.a, s.b, getattr(s, "f", None) if s.isDirac() else None] for s in f.segments], f(XS), f.integrate()


def names(s, o):
    """symbols numbered by identity, renamed in order of appearance"""
    seen = {}
    return re.sub(r"(?<![A-Za-z])X\d+(_\d+)?|#\d+(_\d+)?|(?<=\()\d{9,}", lambda m: "v%d" % seen.setdefault(m.group(0), len(seen)), str(s))


def kinds(e):
    """the shape of a symbolic expression, up to the order of its terms"""
    import sympy
    return sorted(str(n) if n.is_Number else type(n).__name__ for n in sympy.preorder_traversal(sympy.sympify(e)))


def close_all():
    import matplotlib.pyplot as plt
    plt.close("all")


def plotted(f):
    import matplotlib.pyplot as plt
    plt.close("all")
    plt.figure()
    f()
    out = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in plt.gca().lines]
    n = len(plt.gca().patches)
    plt.close("all")
    return out, n


ASK = {
    "pdf": lambda d: d.pdf(XS), "cdf": lambda d: d.cdf(XS), "ccdf": lambda d: d.ccdf(XS), "quantile": lambda d: d.quantile(PS), "mean": lambda d: d.mean(),
    # several calls with different arguments: each compared with its own fresh copy
    "pdf1": [lambda d, x=float(x): d.pdf(x) for x in XS[::3]] + [lambda d: d(0.6875), lambda d: d.cdf(1.75), lambda d: d.cdf(0.3125), lambda d: d.ccdf(0.3125), lambda d: d.ccdf_value(1.75)],
    "var": lambda d: d.var(), "std": lambda d: d.std(), "median": lambda d: d.median(), "medianad": lambda d: d.medianad(), "mode": lambda d: d.mode(),
    "entropy": lambda d: d.entropy(), "skew": lambda d: d.skewness(), "kurt": lambda d: d.kurtosis(), "moment3": [lambda d, a=a: d.moment(*a) for a in ((3,), (3, 0), (2, 0.5), (2,), (2, -1.0), (3, 0.5), (1, 0.25))],
    "range": lambda d: d.range(), "range_": lambda d: d.range_(), "interval": [lambda d: d.interval(), lambda d: d.interval(0.5), lambda d: d.ci(0.25), lambda d: d.quantile(0.3), lambda d: d.quantile(0.8), lambda d: d.interval(0.9)], "iqrange": lambda d: d.iqrange(),
    "summary_map": lambda d: sorted((k, v) for k, v in d.summary_map().items()), "summary": lambda d: d.summary(), "str": lambda d: names(str(d) + repr(d), d), "name": lambda d: names(d.getName(), d),
    "sym": lambda d: kinds(d.getSym()) + kinds(d.getSymname()), "parents": lambda d: (len(d.parents), len(d.getAncestorIDs())),
    "rand": lambda d: d.rand(12), "rand1": lambda d: d.rand(), "randinv": lambda d: d.rand_invcdf(7), "int_error": lambda d: d.int_error(),
    "interp_error": lambda d: 0.0 * np.asarray(d.interp_error()), "log_pdf": lambda d: d.log_pdf(XS), "isnonneg": lambda d: bool(d.is_nonneg()), "five": lambda d: d.five_number_summary(),
    "boxplot": lambda d: plotted(d.boxplot), "tailexp": lambda d: d.tailexp(), "pdfp": lambda d: pieces(d.get_piecewise_pdf()), "cdfp": lambda d: d.get_piecewise_cdf()(XS),
    "ccdfp": lambda d: d.get_piecewise_ccdf()(XS), "invp": lambda d: d.get_piecewise_invcdf()(PS), "cdfi": lambda d: d.get_piecewise_cdf_interp()(XS),
    "scaled": lambda d: ((2 * d.get_piecewise_pdf())(XS), (d.get_piecewise_pdf() * 3)(XS)), "split": lambda d: d.get_piecewise_pdf().splitByPoints([0.25, 1.125])(XS[1:]),
    "interp": lambda d: d.get_piecewise_pdf().toInterpolated()(XS), "shifted": lambda d: d.get_piecewise_pdf().copyShiftedAndScaled(1, 2)(XS),
    "plot": lambda d: plotted(d.plot), "hist": lambda d: plotted(lambda: d.hist(n=200, xmin=-3, xmax=3, bins=10)), "meanf": lambda d: d.meanf(np.sin),
    "pickle": lambda d: pickle.loads(pickle.dumps(d)).cdf(XS), "deepcopy": lambda d: copy.deepcopy(d).cdf(XS)}
ASK2 = {
    "L2": lambda d, e: d.L2_dist(e), "KL": lambda d, e: d.KL_dist(e),
    "pwsum": lambda d, e: (d.get_piecewise_pdf() + e.get_piecewise_pdf())(XS), "pwprod": lambda d, e: (d.get_piecewise_cdf() * e.get_piecewise_cdf())(XS)}
AUDIT = ["pdf", "cdf", "pdfp", "mean", "name", "str", "parents", "quantile", "range", "var", "cdfp", "ccdf", "sym", "rand", "isnonneg", "ccdfp", "median"]


def ask(q, d, e=None):
    """the answer, or the kind of refusal"""
    if q in SAMPLING:
        np.random.seed(97)
    try:
        if e is not None:
            return ASK2[q](d, e)
        if isinstance(ASK[q], list):
            out = []
            for f in ASK[q]:
                try:
                    out.append(f(d))
                except core.Timeout:
                    raise
                except Exception as x:
                    out.append("raises " + type(x).__name__)
            return out
        return ASK[q](d)
    except core.Timeout:
        raise
    except Exception as x:
        close_all()
        return "raises " + type(x).__name__


def make(name, a, b=None):
    try:
        return op(name, a, b)
    except core.Timeout:
        raise
    except Exception as x:
        return "raises " + type(x).__name__


def same(a, b, tol):
    if type(a) in (tuple, list) or type(b) in (tuple, list):
        return type(a) in (tuple, list) and type(b) in (tuple, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return isinstance(a, str) == isinstance(b, str) and a == b
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return str(a) == str(b)
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True))


def settings():
    """everything global that an operation could leave changed"""
    import pacal.params as params
    out = {}

    def walk(p, path, depth):
        for k, v in sorted(vars(p).items()):
            if k.startswith("_") or isinstance(v, (types.FunctionType, types.ModuleType, classmethod, staticmethod)) or k == "process_pool":
                continue
            if isinstance(v, type):
                if depth < 4 and v.__module__ == "pacal.params":
                    walk(v, path + "." + k, depth + 1)
            elif isinstance(v, (int, float, str, bool, type(None))):
                out[path + "." + k] = v
    walk(params, "params", 0)
    out["errstate"] = sorted(np.geterr().items())
    out["printoptions"] = str(sorted(np.get_printoptions().items(), key=str))
    out["recursion"] = sys.getrecursionlimit()
    out["cwd"] = os.getcwd()
    import warnings
    out["warnings"] = len(warnings.filters)
    try:
        import mpmath
        out["mpmath"] = mpmath.mp.prec
    except ImportError:
        pass
    return out


# ---- the oracle: a freshly built copy, asked one question ---------------------
_FRESH = {}


def graph_key(bases, nodes, ks):
    """the part of the graph the nodes ks are made from, canonically"""
    need, todo = set(), list(ks)
    while todo:
        k = todo.pop()
        if k not in need:
            need.add(k)
            if k > len(bases):
                todo += [p for p in nodes[k - len(bases) - 1][1:] if p]
    order = sorted(need)
    idx = {k: n for n, k in enumerate(order)}
    return tuple((bases[k - 1],) if k <= len(bases) else (nodes[k - len(bases) - 1][0],) + tuple(idx[p] for p in nodes[k - len(bases) - 1][1:] if p) for k in order), [idx[k] for k in ks]


def fresh(bases, nodes, q, i, j):
    g, ks = graph_key(bases, nodes, [i] + ([j] if j else []))
    key = (g, tuple(ks), q)
    if key not in _FRESH:
        def copies():
            objs = []
            for n in g:
                objs.append(leaf(n[0]) if len(n) == 1 else make(n[0], *[objs[p] for p in n[1:]]))
                if isinstance(objs[-1], str):
                    break
            return objs
        objs = copies()
        if isinstance(objs[-1], str):
            _FRESH[key] = objs[-1]
        elif q and not j and isinstance(ASK[q], list):
            out, calls = [], ASK[q]
            for f in calls:
                ASK[q] = [f]
                try:
                    out += ask(q, copies()[ks[0]])
                finally:
                    ASK[q] = calls
            _FRESH[key] = out
        else:
            _FRESH[key] = ask(q, objs[ks[0]], objs[ks[1]] if j else None) if q else "built"
    return _FRESH[key]


def short(x):
    s = str(x).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


def replay(v):
    r = core.Result()
    bases = v["bases"]
    objs = [leaf(b) for b in bases]
    nodes = []                        # (operation, operand, operand)
    before = settings()
    idents = []
    for ev in v["hist"]:
        e, i, j = ev["e"], ev["i"], ev["j"]
        state = np.random.get_state()[1].copy()
        if e in OPS:
            X = make(e, objs[i - 1], objs[j - 1] if j else None)
            nodes.append((e, i, j))
            want = fresh(bases, nodes, None, len(bases) + len(nodes), 0)
            got = X if isinstance(X, str) else "built"
            if not r.expect("build", got == want, lambda: "%s of %s: %s, on fresh copies: %s" % (e, (i, j), got, want)) or isinstance(X, str):
                if isinstance(X, str):
                    return audit(r, v, bases, nodes[:-1], objs, before, idents)
                return r
            if not hasattr(X, "get_piecewise_pdf"):         # a number
                return audit(r, v, bases, nodes[:-1], objs, before, idents)
            objs.append(X)
            idents.append((X, [id(p) for p in X.parents]))
        else:
            first = ask(e, objs[i - 1], objs[j - 1] if j else None)
            want = fresh(bases, nodes, e, i, j)
            r.expect("answer", same(first, want, 1e-9), lambda: "%s of variable %s: %s; of a fresh copy: %s" % (e, (i, j) if j else i, short(first), short(want)))
            if e in SLOW:
                continue
            again = ask(e, objs[i - 1], objs[j - 1] if j else None)
            r.expect("repeat", same(first, again, 0.0), lambda: "%s of variable %s: %s, asked again: %s" % (e, (i, j) if j else i, short(first), short(again)))
        if e not in SAMPLING:
            r.expect("random-state", np.array_equal(state, np.random.get_state()[1]), "%s changed the state of the random generator" % e)
        now = settings()
        r.expect("settings", now == before, lambda: "%s left changed: %s" % (e, [(k, before.get(k), now.get(k)) for k in sorted(set(before) | set(now)) if before.get(k) != now.get(k)]))
        before = now
    return audit(r, v, bases, nodes, objs, before, idents)


def audit(r, v, bases, nodes, objs, before, idents):
    for X, ps in idents:
        r.expect("parents", [id(p) for p in X.parents] == ps, "operands of %s replaced" % X)
    k = v["rot"] % len(AUDIT)
    for n in range(len(objs)):
        qs = (AUDIT + AUDIT)[k:k + len(AUDIT)][:v["depth"] if n >= len(bases) else len(AUDIT)]
        k = (k + 5) % len(AUDIT)
        for q in qs:
            got, want = ask(q, objs[n]), fresh(bases, nodes, q, n + 1, 0)
            if not r.expect("afterwards", same(got, want, 1e-9), lambda: "%s of variable %d: %s; of a fresh copy: %s" % (q, n + 1, short(got), short(want))):
                break
    now = settings()
    r.expect("settings", now == before, lambda: "left changed: %s" % [(q, before.get(q), now.get(q)) for q in sorted(set(before) | set(now)) if before.get(q) != now.get(q)])
    return r


def run(ctx):
    thorough = ctx.tier == "thorough"
    vecs = []
    for rec in ctx.tlc_many([("MC_Session", c) for c in (["C14_q1", "C14_q2", "C14_t1"] if thorough else ["C14_q1", "C14_q2"])]):
        key = ",".join(rec["bases"]) + ": " + "; ".join("%s(%d%s)" % (h["e"], h["i"], ",%d" % h["j"] if h["j"] else "") for h in rec["hist"])
        vecs.append(dict(rec, key=key))
    vecs.sort(key=lambda v: (len(v["hist"]), v["key"]))
    if not thorough:      # every event kind in every context is met within four consecutive numbers of the seed
        one = [v for v in vecs if len(v["hist"]) == 1]
        step = 4
        vecs = one[int(os.environ.get("VERIF_SEED", "1")) % step::step] + [v for v in vecs if len(v["hist"]) > 1]
    for k, v in enumerate(vecs):
        v.update(rot=k, depth=18 if thorough else 6)
    ctx.replay(vecs, replay, label="sessions", limit=300)
