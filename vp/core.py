"""Monitor core: judged observations, verdicts, process scheduler, evidence, replay."""
import os, sys, json, time, traceback, hashlib, tempfile, shutil, collections
import multiprocessing as mp
import multiprocessing.connection as mpc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

MAX_VIOL_PER_UNIT = 6
MAX_VIOL_UNITS = 6          # stop launching new units after that many violating units


class StopUnit(Exception):
    pass


class Mon:
    """Collects what the monitors observed inside one unit."""

    def __init__(self, unit, seed, known=()):
        import numpy as np
        self.known = known
        self.unit = unit
        self.seed = seed
        self.evals = 0
        self.distinct = set()
        self.kinds = collections.Counter()
        self.viol = []
        self.samples = []
        self.maxerr = {}
        self.rng = np.random.default_rng([seed & 0xffffffff, unit.get("_i", 0)])

    # -- observations -----------------------------------------------------------------
    def seen(self, kind, *key):
        """record a distinct situation (state / event) observed by a monitor"""
        self.kinds[kind] += 1
        h = hashlib.blake2b(repr((kind,) + key).encode(), digest_size=8).hexdigest()
        self.distinct.add(h)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, key, msg, **ctx):
        self.viol.append({"key": key, "msg": str(msg)[:1500], "ctx": {k: str(v)[:800] for k, v in ctx.items()}})
        if key in self.known:
            if sum(v["key"] == key for v in self.viol) > 1: self.viol.pop()
        elif sum(v["key"] not in self.known for v in self.viol) >= MAX_VIOL_PER_UNIT:
            raise StopUnit()

    def check(self, ok, key, msg="", **ctx):
        self.evals += 1
        if not ok:
            self.violation(key, msg or key, **ctx)
        return bool(ok)

    def close(self, a, b, key, msg="", atol=1e-8, rtol=0.0, **ctx):
        """a == b elementwise within atol + rtol*max|b|; shapes must agree, no NaN"""
        import numpy as np
        self.evals += 1
        a = _np(a); b = _np(b)
        if a.shape != b.shape:
            self.violation(key, "%s: shape %s != %s" % (msg, a.shape, b.shape), **ctx)
            return False
        if a.size == 0:
            return True
        if a.dtype == bool: a = a.astype(int)
        if b.dtype == bool: b = b.astype(int)
        scale = float(np.max(np.abs(b))) if rtol else 0.0
        err = float(np.max(np.abs(a - b)))
        self.maxerr[key] = max(self.maxerr.get(key, 0.0), err if err == err else float("inf"))
        if not (err <= atol + rtol * scale):
            self.violation(key, "%s: max abs error %.3g (tol %.3g, scale %.3g)" % (msg, err, atol + rtol * scale, scale), **ctx)
            return False
        return True

    def raises(self, fn, key, msg="", **ctx):
        """fn() must be rejected with an exception"""
        self.evals += 1
        try:
            r = fn()
        except Exception:
            return True
        self.violation(key, "%s: accepted, returned %r" % (msg, type(r)), **ctx)
        return False

    def guard(self, key, **ctx):
        """an exception inside is a violation `key` (the workload must be accepted)"""
        return _Guard(self, key, ctx)

    def result(self):
        return {"evals": self.evals, "distinct": self.distinct, "kinds": self.kinds, "viol": self.viol,
                "samples": self.samples, "maxerr": self.maxerr}


class _Guard:
    def __init__(self, mon, key, ctx):
        self.mon, self.key, self.ctx = mon, key, ctx

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (StopUnit, KeyboardInterrupt, MemoryError, SystemExit)):
            return False
        self.mon.evals += 1
        self.mon.violation(self.key, "exception %s: %s\n%s" % (
            et.__name__, ev, "".join(traceback.format_tb(tb)[-4:])), **self.ctx)
        return True


def _np(x):
    import numpy as np
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def setup_env():
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np, torch
    torch.set_num_threads(1)
    import e2cnn, e2cnn.nn, e2cnn.gspaces, e2cnn.group, e2cnn.kernels, e2cnn.diffops
    p = os.path.realpath(e2cnn.__file__)
    assert p.startswith(os.path.realpath(REPO) + os.sep), "e2cnn imported from %s, not %s" % (p, REPO)


def _unit_main(conn, check, unit, seed, tier, known):
    import random, io
    scratch = tempfile.mkdtemp(prefix="vpu_")
    try:
        os.chdir(scratch)
        import numpy as np, torch
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        s = (seed * 1000003 + unit.get("_i", 0)) & 0x7fffffff
        random.seed(s); np.random.seed(s); torch.manual_seed(s)
        mon = Mon(unit, seed, known)
        mon.tier = tier
        status = "ok"
        t0 = time.time()
        try:
            check.run(mon, unit)
        except StopUnit:
            pass
        except MemoryError:
            status = "inconclusive: out of memory"
        except Exception as e:
            try:
                mon.violation("crash:%s" % type(e).__name__, "unexpected exception %s: %s\n%s" % (
                    type(e).__name__, e, traceback.format_exc()[-1200:]))
            except StopUnit:
                pass
        r = mon.result()
        r["status"] = status
        r["wall"] = time.time() - t0
        conn.send(r)
    finally:
        conn.close()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)


def run_units(check, units, seed, tier, nproc, deadline, unit_timeout, verbose=False, known=()):
    ctx = mp.get_context("fork")
    todo = list(range(len(units)))
    todo.reverse()
    running = {}
    results = {}
    stop = False
    nviol = 0
    while todo or running:
        now = time.time()
        while todo and len(running) < nproc and not stop and now < deadline:
            i = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_unit_main, args=(b, check, units[i], seed, tier, known))
            p.start()
            b.close()
            running[a] = (i, p, now)
        if not running:
            break
        for c in mpc.wait(list(running), timeout=1.0):
            i, p, t = running.pop(c)
            try:
                results[i] = c.recv()
            except EOFError:
                p.join()
                results[i] = {"status": "inconclusive: worker died (exit %s)" % p.exitcode}
                if p.exitcode is not None and -p.exitcode in (4, 6, 7, 8, 11):      # the interpreter itself crashed
                    results[i] = {"status": "crashed", "viol": [{"key": "crash:signal", "msg": "the process running the library was ended by signal %d" % -p.exitcode, "ctx": {}}]}
            c.close()
            p.join()
            if any(v["key"] not in known for v in results[i].get("viol", ())):
                nviol += 1
                if nviol >= MAX_VIOL_UNITS:
                    stop = True
            if verbose:
                r = results[i]
                print("  unit %d %.1fs evals=%s viol=%s %s %s" % (
                    i, r.get("wall", -1), r.get("evals"), len(r.get("viol", [])), r["status"],
                    {k: v for k, v in units[i].items() if not k.startswith("_")}), file=sys.stderr)
        now = time.time()
        for c in list(running):
            i, p, t = running[c]
            if now - t > unit_timeout or now > deadline + 5:
                p.kill(); p.join(); c.close(); running.pop(c)
                results[i] = {"status": "inconclusive: time-out after %.0fs" % (now - t)}
                if now - t > unit_timeout:      # these executions take seconds: a call of the library does not come back
                    results[i] = {"status": "hung", "viol": [{"key": "hang", "msg": "an execution which takes seconds did not come back after %.0f s" % (now - t), "ctx": {}}]}
                    nviol += 1; stop = True
        if now > deadline and not running:
            break
    for i in todo:
        results.setdefault(i, {"status": "skipped" if stop else "inconclusive: not reached"})
    return results


def load_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == "property=" + pid and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out
