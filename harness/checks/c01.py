"""C01: sums and differences (spec/Sums.tla)."""
from .. import calc, core

LEAVES = {}
# presentation of the k-th vector: rotate deterministically
ROT = [("scale.3", 0), ("shift10", 1), ("scale1e3", 2), ("unit", 1), ("scale1e-3", 0), ("unit", 2), ("s.3t.1", 3),
       ("scale7th", 1), ("shift-3", 0), ("unit", 3)]


def replay(v):
    r = core.Result()
    s, t = calc.PRES[v["pres"]]
    toks = v["e"]
    d = calc.evaluate(toks, lambda n, k: calc.build_leaf(LEAVES[n], s, t, (v["cons"] + (k if v["cons"] else 0)) % 4))
    T = shift_of(toks) * t
    pts, atoms = calc.lattice_pts(v["obs"])
    f = lambda x: s * float(x) + T
    calc.check_obs(r, d, [(f(x), float(F), float(L)) for x, F, L in pts], [(f(a), float(m)) for a, m in atoms],
                   mean=f(calc.fr(v["obs"]["mean"])), var=s * s * float(calc.fr(v["obs"]["var"])),
                   tol=2e-9, unit=s, cont_slope=2.0 / s, exact_atoms=(v["pres"] in ("unit", "scale1e3", "shift10", "shift-3")))
    return r


def shift_of(toks):
    st = []
    for t in toks:
        if t in ("add", "sub"):
            b, a = st.pop(), st.pop()
            st.append(a + b if t == "add" else a - b)
        else:
            st.append(1)
    return st[0]


def run(ctx):
    recs = ctx.tlc_many([("Sums", "Sums_q2"), ("Sums", "Sums_q3")] +
                        ([("Sums", "Sums_t3"), ("Sums", "Sums_t4")] if ctx.tier == "thorough" else []))
    vecs, seen = [], set()
    for r in recs:
        if r["kind"] == "leaf":
            LEAVES[r["name"]] = r["items"]
    exprs = []
    for r in recs:
        if r["kind"] == "expr" and " ".join(r["e"]) not in seen:
            seen.add(" ".join(r["e"]))
            exprs.append(r)
    for k, r in enumerate(exprs):
        plans = [("unit", 0)] if ctx.tier == "quick" and len(r["e"]) > 3 else [("unit", 0), ROT[k % len(ROT)]]
        if ctx.tier == "thorough" and len(r["e"]) == 3:
            plans = [("unit", 0)] + ROT
        for pres, cons in plans:
            vecs.append(dict(r, pres=pres, cons=cons, key="%s @%s/%d" % (" ".join(r["e"]), pres, cons)))
    ctx.replay(vecs, replay, label="expression with exact law")
