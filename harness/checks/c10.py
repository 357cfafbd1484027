"""C10: finite discrete arithmetic equals enumeration (spec/Discrete.tla)."""
from .. import calc, core

ITEMS = {
    "A": ([0, 1], [1, 1]), "B": ([-1, 2], [1, 2]), "C": ([-1, 0, 1], [1, 2, 1]), "D": ([1, 2, 3], [1, 1, 3]),
    "E": ([0.5, 2], [1, 3]), "G": ([-2, -0.5], [1, 2]), "H": ([-3, -1, 1, 3], [1, 1, 1, 2]), "K": ([3], [1]),
    "Z": ([0], [1]), "M": ([-1], [1])}


def leaf(name, k, style):
    import pacal as P
    xs, ws = ITEMS[name]
    W = float(sum(ws))
    if style == 1 and len(xs) > 1:      # values given out of order, floats
        return P.DiscreteDistr(xi=[float(x) for x in xs[::-1]], pi=[w / W for w in ws[::-1]])
    if style == 2 and len(xs) > 1:      # mixture of constants
        return P.MixDistr([w / W for w in ws], [P.ConstDistr(float(x)) for x in xs])
    if len(xs) == 1:
        return P.ConstDistr(xs[0])
    return P.DiscreteDistr(xi=list(xs), pi=[w / W for w in ws])


def replay(v):
    r = core.Result()
    d = calc.evaluate(v["e"], lambda n, k: leaf(n, k, v["style"]))
    o = v["obs"]
    vals = [float(calc.fr(x)) for x in o["vals"]]
    pr = [float(calc.fr(x)) for x in o["probs"]]
    pts, c = [], 0.0
    prev = 0.0
    for k, (x, p) in enumerate(zip(vals, pr)):
        c = prev + p
        pts.append((x, c, prev))
        nxt = vals[k + 1] if k + 1 < len(vals) else x + 2
        pts.append(((x + nxt) / 2, c, c))
        prev = c
    pts.insert(0, (vals[0] - 1, 0.0, 0.0))
    ok, f = r.call("law", d.get_piecewise_pdf)
    if not ok:
        return r
    calc.check_obs(r, d, pts, list(zip(vals, pr)), mean=float(calc.fr(o["mean"])), var=float(calc.fr(o["var"])),
                   tol=1e-10, unit=1.0, exact_atoms=False, postol=1e-11)
    # no continuous mass anywhere
    ok, cont = r.call("continuous-mass", lambda: sum(abs(s.integrate(s.a, s.b)) for s in f.getSegments()))
    if ok:
        r.close("continuous-mass", cont, 0.0, 1e-12, "mass outside the atoms")
    return r


def run(ctx):
    recs = ctx.tlc_many([("MC_Discrete", c) for c in ["Discrete_q1", "Discrete_q2", "Discrete_q3"] +
                         (["Discrete_t1", "Discrete_t2"] if ctx.tier == "thorough" else [])])
    vecs, seen = [], set()
    for k, r in enumerate(recs):
        e = " ".join(r["e"])
        if e in seen:
            continue
        seen.add(e)
        vecs.append(dict(r, style=k % 3, key="%s /%d" % (e, k % 3)))
    ctx.replay(vecs, replay, label="expression with enumerated law", chunksize=8)
