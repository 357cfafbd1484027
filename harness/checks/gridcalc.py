"""C03 / C05: extrema with numbers, conditioning, mixtures (spec/GridCalc.tla)."""
from fractions import Fraction
from .. import calc, core

LEAVES = {}
ROT = [("scale.3", 0), ("shift10", 1), ("scale1e3", 2), ("unit", 1), ("scale1e-3", 0), ("unit", 2), ("s.3t.1", 3),
       ("scale7th", 1), ("shift-3", 0), ("unit", 3)]
NOSHIFT = {"neg", "abs", "addc", "raddc", "subc", "rsubc"}


def pts_of(obs):
    lo = obs["lo"]
    pts = [(Fraction(lo + k, 4), calc.fr(F), calc.fr(L)) for k, (F, L) in enumerate(zip(obs["F"], obs["L"]))]
    out = [(pts[0][0] - 1, Fraction(0), Fraction(0))] + pts + [(pts[-1][0] + 1, Fraction(1), Fraction(1))]
    return out, [(x, F - L) for x, F, L in pts if F != L]


def replay(v):
    r = core.Result()
    s, t = calc.PRES[v["pres"]]
    toks = v["e"]
    if t and any(x.partition(":")[0] in NOSHIFT for x in toks):
        t = 0.0
    f = lambda x: s * float(x) + t
    d = calc.evaluate(toks, lambda n, k: calc.build_leaf(LEAVES[n], s, t, (v["cons"] + (k if v["cons"] else 0)) % 4), num=f)
    pts, atoms = pts_of(v["obs"])
    mean = [f(calc.fr(m)) for m in v["obs"]["mean"]]
    var = [s * s * float(calc.fr(m)) for m in v["obs"]["var"]]
    calc.check_obs(r, d, [(f(x), float(F), float(L)) for x, F, L in pts], [(f(a), float(m)) for a, m in atoms],
                   mean=mean[0] if mean else None, var=var[0] if var else None,
                   tol=2e-9, unit=s, cont_slope=4.0 / s,
                   exact_atoms=(v["cons"] != 2 and v["pres"] in ("unit", "scale1e3", "shift10", "shift-3")))
    return r


def run(ctx, cfgs, per):
    recs = ctx.tlc_many([("MC_GridCalc", c) for c in cfgs])
    for r in recs:
        if r["kind"] == "leaf":
            LEAVES[r["name"]] = r["items"]
    exprs, seen = [], set()
    for r in recs:
        if r["kind"] == "expr" and " ".join(r["e"]) not in seen:
            seen.add(" ".join(r["e"]))
            exprs.append(r)
    vecs = []
    for k, r in enumerate(exprs):
        for pres, cons in [("unit", 0)] + [ROT[(k + j) % len(ROT)] for j in range(per)]:
            vecs.append(dict(r, pres=pres, cons=cons, key="%s @%s/%d" % (" ".join(r["e"]), pres, cons)))
    ctx.replay(vecs, replay, label="expression with exact law")
