"""Building the graphs of spec/Dag.tla in pacal (used by C12, C13)."""
import itertools
import math
import re
import warnings
import numpy as np
from .. import calc


def bases(names):
    import pacal
    mk = dict(A=lambda: pacal.UniformDistr(1, 2, sym="A"), B=lambda: pacal.UniformDistr(-1, 3, sym="B"),
              C=lambda: pacal.NormalDistr(0, 1, sym="C"), D=lambda: pacal.DiscreteDistr([-1, 2], [0.25, 0.75]))
    return [mk[n]() for n in names]


def num(c):
    n, d = c
    return n // d if n % d == 0 else n / float(d)


def build_step(objs, st):
    """the pacal operation of one step"""
    import pacal
    from pacal import distr as D
    op, X = st["op"], objs[st["i"] - 1]
    if op == "make_free":
        X.make_free()
        return None
    if st["j"]:
        Y = objs[st["j"] - 1]
        return {"add": lambda: X + Y, "sub": lambda: X - Y, "mul": lambda: X * Y, "div": lambda: X / Y, "pow": lambda: X ** Y,
                "max": lambda: D.max(X, Y), "min": lambda: D.min(X, Y)}[op]()
    if st["c"]:
        c = num(st["c"])
        return {"addc": lambda: X + c, "raddc": lambda: c + X, "subc": lambda: X - c, "rsubc": lambda: c - X, "mulc": lambda: X * c,
                "rmulc": lambda: c * X, "divc": lambda: X / c, "rdivc": lambda: c / X, "powc": lambda: X ** c, "rpow": lambda: c ** X,
                "maxc": lambda: D.max(X, c), "minc": lambda: D.min(X, c)}[op]()
    return {"neg": lambda: -X, "abs": lambda: abs(X), "sqr": lambda: X ** 2, "inv": lambda: 1 / X, "exp": lambda: D.exp(X), "log": lambda: D.log(X),
            "sqrt": lambda: D.sqrt(X), "sign": lambda: D.sign(X), "atan": lambda: D.atan(X), "tanh": lambda: D.tanh(X),
            "sigmoid": lambda: D.sigmoid(X), "sin": lambda: D.sin(X), "cos": lambda: D.cos(X), "tan": lambda: D.tan(X)}[op]()


def value(st, x, y):
    """the operation on numbers"""
    op, c = st["op"], st["c"] and num(st["c"])
    return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y, "pow": lambda: x ** y, "max": lambda: max(x, y),
            "min": lambda: min(x, y), "addc": lambda: x + c, "raddc": lambda: c + x, "subc": lambda: x - c, "rsubc": lambda: c - x,
            "mulc": lambda: x * c, "rmulc": lambda: c * x, "divc": lambda: x / c, "rdivc": lambda: c / x, "powc": lambda: x ** c, "rpow": lambda: c ** x,
            "maxc": lambda: max(x, c), "minc": lambda: min(x, c), "neg": lambda: -x, "abs": lambda: abs(x), "sqr": lambda: x * x, "inv": lambda: 1.0 / x,
            "exp": lambda: math.exp(x), "log": lambda: math.log(x), "sqrt": lambda: math.sqrt(x), "sign": lambda: (x > 0) - (x < 0),
            "atan": lambda: math.atan(x), "tanh": lambda: math.tanh(x), "sigmoid": lambda: 1 / (1 + math.exp(-x)),
            "sin": lambda: math.sin(x), "cos": lambda: math.cos(x), "tan": lambda: math.tan(x)}[op]()


PERIOD = {"sin": (-math.pi / 2, 3 * math.pi / 2), "cos": (0.0, 2 * math.pi)}      # sine and cosine of a variable are defined on one period


def value_in_period(st, x, y):
    lo, hi = PERIOD.get(st["op"], (-math.inf, math.inf))
    if not lo <= x <= hi:
        raise ValueError("outside the period")
    return value(st, x, y)


BASEVAL = {"A": [1.0, 2.0, 1.5, 1.25], "B": [-1.0, 0.5, 3.0, 2.0], "C": [-2.0, 1.5, 1.0, 4.0], "D": [2.0, -1.0, 2.0, -1.0]}


def node_values(names, steps, k, value=value):
    """value of every node at assignment k (None where undefined)"""
    v = [BASEVAL[n][k] for n in names]
    for st in steps:
        if st["op"] == "make_free":
            continue
        x, y = v[st["i"] - 1], v[st["j"] - 1] if st["j"] else None
        try:
            v.append(None if x is None or (st["j"] and y is None) else float(value(st, x, y)))
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            v.append(None)
        if isinstance(v[-1], complex):
            v[-1] = None
    return v


ENV = dict(exp=math.exp, log=math.log, sqrt=math.sqrt, atan=math.atan, tanh=math.tanh, sin=math.sin, cos=math.cos, tan=math.tan,
           Abs=abs, Max=max, Min=min, max=max, min=min, abs=abs, sign=lambda x: (x > 0) - (x < 0), sqr=lambda x: x * x,
           sigmoid=lambda x: 1 / (1 + math.exp(-x)), pi=math.pi, E=math.e)


def build(names, steps):
    """objects of all nodes, number of independence warnings of the last step"""
    objs, nwarn = bases(names), 0
    for st in steps:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o = build_step(objs, st)
        nwarn = sum("independent" in str(x.message) for x in w)
        if o is not None:
            objs.append(o)
    return objs, nwarn


def occurrence_values(names, steps, i, draws, limit=300):
    """all values of node i when each occurrence of a base variable takes its own draw"""
    made = [st for st in steps if st["op"] != "make_free"]
    nb = len(names)
    occ = []

    def walk(n):
        if n <= nb:
            occ.append(n)
            return
        st = made[n - nb - 1]
        walk(st["i"])
        if st["j"]:
            walk(st["j"])
    walk(i)

    def ev(n, it):
        if n <= nb:
            return next(it)
        st = made[n - nb - 1]
        x = ev(st["i"], it)
        return value_in_period(st, x, ev(st["j"], it) if st["j"] else None)
    cnt = {b: occ.count(b) for b in set(occ)}
    tot = 1
    for c in cnt.values():
        tot *= math.factorial(c)
    if tot > limit:
        return None
    out = []
    for perms in itertools.product(*[itertools.permutations(range(cnt[b])) for b in sorted(cnt)]):
        pos = {b: list(p) for b, p in zip(sorted(cnt), perms)}
        it = iter([draws[b - 1][pos[b].pop(0)] for b in occ])
        try:
            out.append(ev(i, it))
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
    return out


def all_nodes(o, seen=None):
    seen = {} if seen is None else seen
    if id(o) not in seen:
        seen[id(o)] = o
        for p in o.parents:
            all_nodes(p, seen)
    return list(seen.values())
