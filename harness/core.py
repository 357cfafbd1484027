"""Shared machinery: TLC runs, replay pool, verdicts, evidence."""
import contextlib
import hashlib
import importlib
import importlib.util
import io
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLCCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Timeout(BaseException):
    pass


# --------------------------------------------------------------------------
# loading pacal from the working tree
# --------------------------------------------------------------------------
def _ext_fresh():
    """True if the compiled extension in /repo was built from the current .pyx."""
    import glob
    so = glob.glob(os.path.join(REPO, "pacal", "bary_interp.*.so"))
    if not so:
        return False
    try:
        stamp = open(os.path.join(REPO, "build", "bary_interp.sha256")).read().strip()
    except OSError:
        return False
    h = hashlib.sha256()
    for f in [os.path.join(REPO, "setup.py")] + sorted(glob.glob(os.path.join(REPO, "pacal", "*.pyx"))):
        h.update(open(f, "rb").read())
    return stamp.split()[0] == h.hexdigest()


def _build_ext(dest):
    """Build bary_interp from the current .pyx into a scratch directory."""
    shutil.copytree(os.path.join(REPO, "pacal"), os.path.join(dest, "pacal"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__", "examples"))
    for f in ("setup.py", "README.md", "README.rst", "README", "MANIFEST.in"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, dest)
    r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "--force"], cwd=dest,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    import glob
    so = glob.glob(os.path.join(dest, "pacal", "bary_interp.*.so"))
    if not so:
        raise MachineryError("cannot build bary_interp:\n" + r.stdout[-3000:])
    return so[0]


_loaded = False


def load_pacal(ctx=None):
    """Import pacal from /repo's working tree with the extension built from
    the current .pyx, whatever the state of the build products in /repo."""
    global _loaded
    if _loaded:
        import pacal
        return pacal
    import warnings
    warnings.simplefilter("ignore")
    with quiet():
        if not _ext_fresh():
            tmp = ctx.tmp if ctx else tempfile.mkdtemp(prefix="vpext")
            so = _build_ext(os.path.join(tmp, "ext"))
            # the extension must be importable as pacal.bary_interp before
            # pacal.interpolation looks for it
            import types  # noqa
            spec = importlib.util.spec_from_file_location("pacal.bary_interp", so)
            mod = importlib.util.module_from_spec(spec)
            sys.modules["pacal.bary_interp"] = mod
            spec.loader.exec_module(mod)
        import numpy
        numpy.seterr(all="ignore")
        import pacal
        from pacal import params
        params.general.parallel = False
        numpy.seterr(all="ignore")
    if not os.path.abspath(pacal.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise MachineryError("pacal imported from %s" % pacal.__file__)
    _loaded = True
    return pacal


@contextlib.contextmanager
def quiet():
    """Hide what pacal prints (it prints tracebacks and debug lines)."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
_FUNC = None


def _alarm(signum, frame):
    raise Timeout()


def _work(job):
    idx, vec, limit = job
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, float(limit), 5.0)
    try:
        import numpy
        import warnings
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            numpy.random.seed(12345 + idx)
            random.seed(12345 + idx)
            out = _FUNC(vec)
        res = out if isinstance(out, Result) else Result(out)
        err = None
    except Timeout:
        res, err = Result([Fail("timeout", "no answer within %d s" % limit)]), None
    except MachineryError as e:
        res, err = Result([]), "machinery: %s" % e
    except Exception as e:
        tb = traceback.format_exc().strip().split("\n")
        where = ""
        for ln in tb:
            m = re.search(r'File "([^"]*)", line (\d+), in (\S+)', ln)
            if m:
                where = "%s:%s:%s" % (os.path.basename(m.group(1)), m.group(2), m.group(3))
        if "/harness/" in "".join([l for l in tb if 'File "' in l][-1:]) and not isinstance(e, ValueRaised):
            res, err = Result([]), "driver: " + traceback.format_exc()
        else:
            res, err = Result([Fail("raised", "%s: %s at %s" % (type(e).__name__, str(e)[:200], where))]), None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return idx, res.fails, res.n, err, time.time() - t0


class ValueRaised(Exception):
    pass


class Fail(object):
    def __init__(self, clause, detail):
        self.clause, self.detail = clause, detail

    def __repr__(self):
        return "%s: %s" % (self.clause, self.detail)


class Result(object):
    """Outcome of one vector: failures and number of comparisons made."""

    def __init__(self, fails=None, n=0):
        self.fails = list(fails or [])
        self.n = n

    def expect(self, clause, ok, detail=""):
        self.n += 1
        if not ok:
            self.fails.append(Fail(clause, detail() if callable(detail) else detail))
        return bool(ok)

    def close(self, clause, got, want, tol, what=""):
        """numeric comparison with absolute tolerance"""
        self.n += 1
        try:
            g = float(got)
            ok = abs(g - want) <= tol or g == want
        except Exception as e:
            self.fails.append(Fail(clause, "%s: got %r (%s) want %.15g" % (what, got, e, want)))
            return False
        if not ok:
            self.fails.append(Fail(clause, "%s: got %.15g want %.15g (err %.3g > %.3g)" % (what, g, want, abs(g - want), tol)))
        return ok

    def call(self, clause, f, *a, **k):
        """call into pacal; an exception is a failed clause"""
        try:
            return True, f(*a, **k)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            self.n += 1
            self.fails.append(Fail(clause, "raised %s: %s at %s:%s" % (type(e).__name__, str(e)[:160], os.path.basename(last.filename), last.name)))
            return False, None


# --------------------------------------------------------------------------
class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.tlc_runs = []
        self.vectors = 0
        self.comparisons = 0
        self.fails = []          # (key, clause, detail, vec)
        self.notes = []
        self.samples = []
        self.traces_ok = 0
        self.slow = []
        self.assumptions = []
        self.known = self._load_known()

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k["property"] == self.prop and k["status"] == "open"]

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=1, env=None, extra=(), expect_ok=True, timeout=700, cfg_text=None):
        """Run TLC on spec/<module>.tla; returns emitted records."""
        run = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        out = os.path.join(run, "out.jsonl")
        if cfg_text is not None:
            cfgp = os.path.join(run, "m.cfg")
            open(cfgp, "w").write(cfg_text)
        else:
            cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
        e = dict(os.environ)
        e["VP_OUT"] = out
        e.update(env or {})
        # a large stack: recursive operators nest deeply, and how deep a Java stack reaches varies from run to run
        cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx3g", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + run,
               "-cp", TLCCP, "tlc2.TLC", "-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(run, "md"),
               "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s/%s" % (module, cfg))
        txt = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in txt
        self.tlc_runs.append({"module": module, "cfg": cfg or module, "states": dist, "transitions": gen,
                              "ok": ok, "wall_s": round(time.time() - t0, 1)})
        self.states += dist
        self.transitions += gen
        if expect_ok and not ok:
            raise MachineryError("TLC failed on %s/%s:\n%s" % (module, cfg, txt[-3500:]))
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for ln in f:
                    ln = ln.strip()
                    if ln:
                        v = json.loads(ln)
                        recs.append(json.loads(v) if isinstance(v, str) else v)
        recs.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.last_tlc = txt
        if not expect_ok:
            return ok, txt, recs
        return recs

    def tlc_many(self, runs):
        """Several TLC runs side by side; runs = [(module, cfg), ...]; returns the concatenated records."""
        from concurrent.futures import ThreadPoolExecutor
        w = max(1, 8 // len(runs))
        with ThreadPoolExecutor(max_workers=min(len(runs), 8)) as ex:
            futs = [ex.submit(self.tlc, *(r if len(r) > 2 else (r[0], r[1], w))) for r in runs]
            out = []
            for f in futs:
                out += f.result()
        self.tlc_runs.sort(key=lambda r: (r["module"], r["cfg"]))
        return out

    # ---- replay ---------------------------------------------------------
    def replay(self, vecs, func, key=None, limit=150, procs=8, chunksize=1, label=None):
        """Replay vectors in a pool of forked workers. func(vec) -> Result."""
        global _FUNC
        load_pacal(self)
        _FUNC = func
        key = key or (lambda v: v.get("key") or json.dumps(v, sort_keys=True)[:200])
        jobs = [(i, v, limit) for i, v in enumerate(vecs)]
        if not jobs:
            raise MachineryError("no vectors to replay (%s)" % label)
        self.vectors += len(jobs)
        step = max(1, len(vecs) // 3)
        for v in vecs[::step][:3]:
            self.samples.append({"what": label or "vector", "value": json.dumps(v, sort_keys=True)[:600]})
        mctx = mp.get_context("fork")
        sys.stdout.flush()
        with mctx.Pool(min(procs, len(jobs))) as pool:
            it = pool.imap_unordered(_work, jobs, 1)
            done = set()
            while len(done) < len(jobs):
                try:
                    idx, fails, n, err, dt = it.next(timeout=limit + 60)
                except mp.TimeoutError:
                    lost = [i for i in range(len(jobs)) if i not in done][:procs]
                    for i in lost[:1]:
                        self.fails.append((key(vecs[i]), "crash", "a worker died or hung on this or a neighbouring vector", vecs[i]))
                    pool.terminate()
                    break
                done.add(idx)
                if err:
                    raise MachineryError("replaying %s: %s" % (key(vecs[idx]), err))
                self.comparisons += n
                self.slow.append((dt, key(vecs[idx])))
                if not fails:
                    self.traces_ok += 1
                for f in fails:
                    self.fails.append((key(vecs[idx]), f.clause, f.detail, vecs[idx]))

    def fail(self, key, clause, detail, vec=None):
        self.fails.append((key, clause, detail, vec))

    # ---- verdict --------------------------------------------------------
    def finish(self, level="model_checking", extra=None):
        self.fails.sort(key=lambda f: (f[0], f[1], f[2]))
        real, kn = [], {}
        for f in self.fails:
            hit = None
            for k in self.known:
                if re.fullmatch(k["match_key"], f[0]) and re.fullmatch(k.get("match_clause", ".*"), f[1]) \
                        and re.fullmatch(k.get("match_detail", "(?s).*"), f[2]):
                    hit = k
                    break
            if hit is None:
                real.append(f)
            else:
                kn.setdefault(hit["id"], [hit, 0])[1] += 1
        for k in self.known:
            cnt = kn.get(k["id"], [k, 0])[1]
            if cnt or k.get("always"):
                print("KNOWN-FINDING: property=%s %s: %s (%d occurrence(s))" % (self.prop, k["id"], k["what"], cnt))
        wall = time.time() - self.t0
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, old))
        for n, f in enumerate(real[:20]):
            p = os.path.join(rdir, "%s-%d.json" % (self.prop, n))
            json.dump({"property": self.prop, "key": f[0], "clause": f[1], "detail": f[2], "vector": f[3]},
                      open(p, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("   %s :: %s :: %s" % (f[0], f[1], f[2]))
        if len(real) > 20:
            print("   ... and %d further failing comparisons" % (len(real) - 20))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.vectors,
                           "samples": (self.samples[:12] if self.samples else []),
                           "comparisons": self.comparisons,
                           "tlc_runs": self.tlc_runs,
                           "vectors_without_failure": self.traces_ok,
                           "known_finding_hits": sum(v[1] for v in kn.values())},
              "wall_s": round(wall, 1), "violations": len(real)}
        if extra:
            ev["coverage"].update(extra)
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        self.slow.sort(reverse=True)
        print("%s %s: %d TLC states, %d vectors replayed, %d comparisons, %d failing, %.1f s" %
              (self.prop, self.tier, self.states, self.vectors, self.comparisons, len(real), wall))
        if os.environ.get("VP_SLOW"):
            for dt, k in self.slow[:15]:
                print("   slow %.2f s %s" % (dt, k))
        return 1 if real else 0
