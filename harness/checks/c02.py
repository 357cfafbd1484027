"""C02: products and quotients (spec/Products.tla, spec/LogLaw.tla)."""
import math
from .. import calc, core

LEAVES = {}
# scales of the leaves (no shifts: the law is multiplicative)
SC = [(1e-6, 0.5), (0.3, 1.0), (1.0, 1.0), (1000.0, 1.0), (1.0, 0.001), (1.0 / 7, 1.0 / 7), (1.0, 4.0), (0.5, 2.0)]


def val(seq):
    """<<r, <<p, n, d>>, ...>> -> float"""
    return math.fsum([seq[0][0] / seq[0][1]] + [n / d * math.log(p) for p, n, d in seq[1:]])


def scale_of(toks, scales):
    st, k = [], 0
    for t in toks:
        if t in ("mul", "div", "add"):
            b, a = st.pop(), st.pop()
            st.append(a * b if t == "mul" else a / b if t == "div" else a)
        else:
            st.append(scales[k])
            k += 1
    return st[0]


def leaf_scales(toks, sc):
    """additions force equal scales: only scale leaves of pure products"""
    n = sum(1 for t in toks if t not in ("mul", "div", "add"))
    return [sc[k % len(sc)] for k in range(n)] if "add" not in toks else [1.0] * n


def replay(v):
    r = core.Result()
    ls = leaf_scales(v["e"], v["sc"])
    S = scale_of(v["e"], ls)
    d = calc.evaluate(v["e"], lambda n, k: calc.build_leaf(LEAVES[n], ls[k], 0.0, (v["cons"] + (k if v["cons"] else 0)) % 4))
    pts, atoms = [], []
    for z, F, m in v["pts"]:
        x, F, m = S * z[0] / z[1], val(F), m[0] / m[1]
        pts.append((x, F, F - m if m else F))
        if m:
            atoms.append((x, m))
    # a neighbour of every atom is read off: the density may be infinite at 0
    mean = S * val(v["mean"]) if v["mean"] else None
    var = None
    if v["m2"]:
        var = S * S * v["m2"][0][0] / v["m2"][0][1] - mean * mean
    calc.check_obs(r, d, pts, atoms, mean=mean, var=var, tol=2e-8, unit=abs(S), cont_slope=60.0 / abs(S),
                   exact_atoms=(v["cons"] != 2 and all(s in (1.0, 4.0, 0.5, 2.0) for s in ls)))
    return r


def run(ctx):
    recs = ctx.tlc_many([("Products", "C02_q1"), ("Products", "C02_q2")])
    for r in recs:
        if r["kind"] == "leaf":
            LEAVES[r["name"]] = r["items"]
    exprs, seen = [], set()
    for r in recs:
        if r["kind"] == "expr" and " ".join(r["e"]) not in seen:
            seen.add(" ".join(r["e"]))
            exprs.append(r)
    vecs = []
    for k, r in enumerate(exprs):
        plans = [((1.0,), 0)]
        if ctx.tier == "thorough":
            plans += [(sc, c) for c, sc in enumerate(SC)]
        elif "add" not in r["e"]:
            plans += [(SC[k % len(SC)], k % 4)]
        for sc, cons in plans:
            if 1e-6 in sc and "div" in r["e"]:
                continue        # tails starting at 1e-6 are outside the accuracy claimed
            vecs.append(dict(r, sc=sc, cons=cons, key="%s @%s/%d" % (" ".join(r["e"]), ",".join("%g" % x for x in sc), cons)))
    ctx.replay(vecs, replay, label="product/quotient with exact law")
