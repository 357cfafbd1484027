"""C15: evaluation by a pool of workers gives what serial evaluation gives (spec/Pool.tla)."""
import multiprocessing
import multiprocessing.pool
import os
import time
import numpy as np
from .. import core
from . import c14

CONTEXTS = [("U", "N"), ("E", "M"), ("C", "U"), ("X2", "B"), ("G", "T"), ("F", "E"), ("N", "P"), ("H", "U")]
_created = None         # shared with the workers: pools opened so far, by anyone
_inside = None          # ... of them inside workers
_main = None


class Delayed(object):
    """the function mapped over, taking its time so that nodes finish in a given order; says who evaluated what"""

    def __init__(self, f, n, order, log):
        self.f, self.n, self.order, self.log = f, n, order, log

    def __call__(self, ix):
        i, x = ix
        if self.order:
            m = len(self.order)
            t = i * m // self.n
            if (i - 1) * m // self.n != t or i == 0:
                time.sleep(0.002 * self.order.index(t + 1))
        self.log[i] += 1
        return self.f(x)


class Watch(object):
    """counts the pools that are opened and schedules the maps that are made"""

    def __init__(self):
        self.orders, self.maps, self.lost = [], 0, []
        self.saved = {}

    def __enter__(self):
        P = multiprocessing.pool.Pool
        watch = self

        def init(pool, *a, **k):
            with _created.get_lock():
                _created.value += 1
            if os.getpid() != _main:
                with _inside.get_lock():
                    _inside.value += 1
                raise RuntimeError("a pool inside a worker")
            watch.saved["__init__"](pool, *a, **k)
        self.saved["__init__"] = P.__init__
        P.__init__ = init
        for name in ("map", "map_async", "imap", "imap_unordered"):
            self.saved[name] = getattr(P, name)
            setattr(P, name, self.wrapper(name))
        return self

    def wrapper(self, name):
        def method(pool, f, xs, *a, **k):
            xs = list(xs)
            if os.getpid() != _main or isinstance(f, Delayed) or not xs:
                return self.saved[name](pool, f, xs, *a, **k)
            order = self.orders[self.maps % len(self.orders)] if self.orders else []
            self.maps += 1
            log = [0] * len(xs)          # counts of the main process only: evaluation in the parent would show here
            out = self.saved[name](pool, Delayed(f, len(xs), order, log), list(enumerate(xs)), *a, **k)
            if any(log):
                self.lost.append("evaluated in the main process")
            return out
        return method

    def __exit__(self, *a):
        for name, f in self.saved.items():
            setattr(multiprocessing.pool.Pool, name, f)




def step(e, X, Y):
    import pacal as P
    if e == "chain":
        return P.exp(P.atan(X)) * Y + 1
    if e == "nd":
        return X + P.tanh(Y) / 2
    return c14.op(e, X, Y)


QS = ["pdf", "cdf", "pdfp", "ccdf", "name", "quantile", "mean"]


def build(ctx, hist, switch, seen=None):
    """the history on fresh variables; answers after every operation"""
    objs = [c14.leaf(n) for n in ctx]
    X, out = objs[0], []
    for k, h in enumerate(hist):
        if h["e"] in ("on", "off"):
            switch(h["e"] == "on")
        else:
            try:
                Y = step(h["e"], X, objs[(k + 1) % 2] if k % 2 else c14.leaf(ctx[1]))
                got = [c14.ask(q, Y) for q in QS]
                X = Y
            except core.Timeout:
                raise
            except Exception as x:
                got = "raises %s: %s" % (type(x).__name__, str(x)[:80])
            out.append(got)
        if seen:
            seen(k, h)
    return out


_serial = {}


def replay(v):
    global _created, _inside, _main
    import pacal.params as params
    r = core.Result()
    ops = [h for h in v["hist"] if h["e"] not in ("on", "off")]
    key = (tuple(v["ctx"]), tuple(h["e"] if h["e"] not in ("on", "off") else "-" for h in v["hist"]))
    was, pool0 = params.general.parallel, params.general.process_pool
    proc = multiprocessing.current_process()
    daemon = proc._config.get("daemon")
    if key not in _serial:
        params.general.parallel = False
        _serial[key] = build(v["ctx"], v["hist"], lambda on: None)
    _created, _inside, _main = multiprocessing.Value("i", 0), multiprocessing.Value("i", 0), os.getpid()
    w = Watch()
    nprocs0 = params.general.nprocs

    def switch(on):
        params.general.parallel = on

    def seen(k, h):
        have = params.general.process_pool is not None
        r.expect("pool", not have or h["pool"], "a pool is open after %s" % [x["e"] for x in v["hist"][:k + 1]])
        r.expect("pool", _created.value <= (1 if h["pool"] else 0), "%d pools opened after %s" % (_created.value, [x["e"] for x in v["hist"][:k + 1]]))
    proc._config["daemon"] = False
    try:
        with w:
            params.general.process_pool, params.general.nprocs, params.general.parallel = None, v["nprocs"], False
            w.orders = [x for x in v["orders"]]
            got = build(v["ctx"], v["hist"], switch, seen)
            pool = params.general.process_pool
            if pool is not None and hasattr(pool, "_processes"):
                r.expect("workers", pool._processes == v["nprocs"], "%r workers, %d asked for" % (pool._processes, v["nprocs"]))
        r.expect("nested", _inside.value == 0, "%d pools opened inside workers" % _inside.value)
        r.expect("main", not w.lost, "%s" % w.lost[:1])
        if w.maps == 0 and any(h["pool"] for h in v["hist"]) and v.get("continuous"):
            r.expect("used", False, "no work was given to the pool")
        for k, (g, s) in enumerate(zip(got, _serial[key])):
            if isinstance(g, str) or isinstance(s, str):
                r.expect("same", g == s, lambda: "operation %d (%s): %s in parallel, %s serially" % (k + 1, ops[k]["e"], c14.short(g), c14.short(s)))
                continue
            for q, a, b in zip(QS, g, s):
                r.expect("same", c14.same(a, b, 1e-11), lambda: "operation %d (%s), %s: %s in parallel, %s serially" % (k + 1, ops[k]["e"], q, c14.short(a), c14.short(b)))
    finally:
        p = params.general.process_pool
        if p is not None and p is not pool0:
            p.terminate()
            p.join()
        params.general.process_pool, params.general.nprocs, params.general.parallel = pool0, nprocs0, was
        proc._config["daemon"] = daemon
    return r


def run(ctx):
    thorough = ctx.tier == "thorough"
    orders = sorted(set(tuple(h["order"]) for rec in ctx.tlc_many([("Pool", "C15_q1")]) for h in rec["hist"] if len(h["order"]) > 1))
    recs = sorted(ctx.tlc_many([("Pool", "C15_q2")]), key=lambda r: [h["e"] for h in r["hist"]])
    recs = [r for r in recs if any(h["pool"] for h in r["hist"])] + [r for r in recs if not any(h["pool"] for h in r["hist"])][::20]
    step_ = 1 if thorough else 17
    vecs = []
    for k, rec in enumerate(recs[int(os.environ.get("VERIF_SEED", "1")) % step_::step_]):
        c = CONTEXTS[k % len(CONTEXTS)]
        os_ = [list(orders[(7 * k + 3 * j) % len(orders)]) for j in range(11)]
        vecs.append(dict(hist=rec["hist"], ctx=c, nprocs=1 + k % 3, orders=os_, continuous=c != ("E", "M"),
                         key="%s: %s /%d" % (",".join(c), " ".join(h["e"] for h in rec["hist"]), 1 + k % 3)))
    ctx.replay(vecs, replay, label="histories of operations and switches", limit=400, procs=6)
