"""C12: the expression graph records what was computed from what (spec/Dag.tla)."""
import math
import re
from .. import calc, core
from . import dag

HIDDEN = {"pow", "powc", "rpow", "sqrt", "rdivc", "maxc", "minc"}     # built through further, internal variables


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def in_domain(st, objs):
    if st is None or st["op"] not in dag.PERIOD:
        return True
    (a, b), (lo, hi) = objs[st["i"] - 1].range(), dag.PERIOD[st["op"]]
    return lo <= a and b <= hi


def structure(r, objs, n, ob, st):
    """ancestors, parents of visible node n (1-based)"""
    X = objs[n - 1]
    ids = {o.id(): k + 1 for k, o in enumerate(objs)}
    r.expect("ids", len(ids) == len(objs), "two variables with the same id")
    ok, a = r.call("ancestors", X.getAncestorIDs)
    if ok:
        r.expect("ancestors", sorted(ids[i] for i in a if i in ids) == ob["anc"], lambda: "ancestors of %d: %s, computed from %s" % (n, sorted(ids[i] for i in a if i in ids), ob["anc"]))
    vis = lambda s: sorted(k + 1 for k, o in enumerate(objs) if any(o is x for x in s))
    for name, fun, want in (("all", X.getParentsAll, ob["anc"]), ("free", X.getParentsFree, ob["free"]), ("derived", X.getParentsDep, ob["dep"])):
        ok, s = r.call("ancestors-" + name, fun)
        if ok:
            r.expect("ancestors-" + name, vis(s) == want, lambda: "%s ancestors of %d: %s, computed from %s" % (name, n, vis(s), want))
            if name == "free":
                r.expect("free", all(not o.parents for o in s), "a free ancestor has operands")
    r.expect("isfree", X.isFree() == (not ob["pars"]) and X.isLinked() == bool(ob["pars"]), "isFree %s, isLinked %s with operands %s" % (X.isFree(), X.isLinked(), ob["pars"]))
    if st is None or st["op"] not in HIDDEN or not ob["pars"]:
        r.expect("parents", len(X.parents) == len(ob["pars"]) and all(p is objs[k - 1] for p, k in zip(X.parents, ob["pars"])),
                 lambda: "direct operands of %d are not those it was built from" % n)


def symbolic(r, X, names, steps, objs, n, st):
    """the defining equations, the displayed name and the declared range, at four assignments of the base variables"""
    ok, eq = r.call("equations", X.getEquations)
    if not ok:
        return
    lhs, rhs = eq
    r.expect("equations", len(lhs) == len(rhs) and len(set(rhs)) == len(rhs), lambda: "equations %s for %s" % (lhs, rhs))
    table = [(str(name), str(e)) for e, name in zip(lhs, rhs)]
    shown = X.getName()
    for o, b in zip(objs, names):
        shown = shown.replace(o.getName(), b)
    if "|" in shown:
        shown = re.sub(r"\|([^|]*)\|", r"abs(\1)", shown) if shown.count("|") == 2 else None
    lo, hi = X.range()
    for k in range(4):
        v = dag.node_values(names, steps, k)
        if v[n - 1] is None:
            continue
        env = dict(dag.ENV, **{str(o.getSymname()): x for o, x in zip(objs, v[:len(names)])})
        env2 = dict(dag.ENV, **{b: x for b, x in zip(names, v)})
        for o in X.getParentsFree():              # a constant operand
            if hasattr(o, "c"):
                env[str(o.getSymname())] = float(o.c)
        todo = list(table)
        try:
            while todo:
                rest = []
                for name, e in todo:
                    try:
                        env[name] = float(eval(e, {"__builtins__": {}}, env))
                    except NameError:
                        rest.append((name, e))
                if len(rest) == len(todo):
                    break
                todo = rest
            sn = X.getSymname()
            y = float(sn) if sn.is_number else env.get(str(sn))
            if todo or y is None:
                r.expect("equations", False, lambda: "equations %s do not determine %s from the base variables" % (table, X.getSymname()))
            else:
                r.expect("equations", close(y, v[n - 1]), lambda: "equations %s give %.12g at %s, the variable is %.12g" % (table, y, v[:len(names)], v[n - 1]))
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            pass
        if shown is not None:
            try:
                y = float(eval(shown, {"__builtins__": {}}, env2))
                r.expect("name", close(y, v[n - 1]), lambda: "displayed as %s = %.12g at %s, the variable is %.12g" % (shown, y, v[:len(names)], v[n - 1]))
            except (ZeroDivisionError, OverflowError, ValueError, TypeError):
                pass
            except Exception as e:
                r.expect("name", False, "displayed as %s: %r" % (shown, e))
        r.expect("range", not in_domain(st, objs) or lo - 1e-9 * max(1, abs(v[n - 1])) <= v[n - 1] <= hi + 1e-9 * max(1, abs(v[n - 1])),
                 lambda: "declared range [%s, %s], takes the value %.12g at %s" % (lo, hi, v[n - 1], v[:len(names)]))


def replay(v):
    r = core.Result()
    names, steps = v["bases"], v["steps"]
    ok, res = r.call("build", dag.build, names, steps)
    if not ok:
        return r
    objs, nwarn = res
    made = [st for st in steps if st["op"] != "make_free"]
    by = [None] * len(names) + made
    r.expect("warning", (nwarn > 0) == v["warn"], lambda: "%d warnings, operands share an ancestor: %s" % (nwarn, v["warn"]))
    if v["freed"]:
        for n, ob in enumerate(v["obs"], 1):
            structure(r, objs, n, ob, by[n - 1])
        return r
    n = len(objs)
    ob = v["obs"][0]
    structure(r, objs, n, ob, by[-1])
    for k, x in enumerate(ob["val"]):          # the specification's exact value
        y = dag.node_values(names, steps, k)[n - 1]
        r.expect("value", y is not None and close(y, float(calc.fr(x))), "model %s, arithmetic %s" % (x, y))
    symbolic(r, objs[-1], names, steps, objs, n, by[-1])
    return r


def run(ctx):
    cfgs = ["C12_q1", "C12_q2"] + (["C12_t1", "C12_t2"] if ctx.tier == "thorough" else [])
    vecs, seen = [], set()
    for rec in ctx.tlc_many([("MC_Dag", c) for c in cfgs]):
        key = "".join(rec["bases"]) + ": " + "; ".join("%s(%d%s%s)" % (s["op"], s["i"], ",%d" % s["j"] if s["j"] else "", ",%d/%d" % tuple(s["c"]) if s["c"] else "") for s in rec["steps"])
        if key not in seen:
            seen.add(key)
            vecs.append(dict(rec, key=key))
    ctx.replay(vecs, replay, label="graphs of random variables")
