import sys, threading
from ..mods import *

RULE = "distinct (module or network, options, space, field types, mode) driven by interleaved and concurrent calls whose results were compared with isolated calls"
ASSUMPTIONS = ["batch normalisation in training mode and dropout in training mode are judged only for leaving earlier results and inputs alone",
               "the same input in another batch, thread or gradient mode may be rounded differently: results are compared at 2e-4 relative to the largest entry; earlier results have to stay bitwise unchanged"]

SPS = [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[0:2]
BN = ("inner", "normbn", "gnorm", "indnormbn")
DROP = ("pdrop", "fdrop")


def units(tier, rng):
    n = 3 if tier == "quick" else 20
    return [{"sp": sp, "k": k, "n": n} for sp in SPS for k in ALL] + [{"sp": sp, "k": "model", "n": n} for sp in SPS for _ in range(2)]


def tens(y):
    return [y.tensor] if isinstance(y, GeometricTensor) else [q.tensor for q in y] if isinstance(y, (list, tuple)) else [q.tensor for _, q in sorted(y.items())]


def eq(mon, a, b, key, msg, ctx):
    if not mon.check(len(a) == len(b) and all(p.shape == q.shape for p, q in zip(a, b)), key, msg + " (shape)", **ctx): return False
    ok = True
    for p, q in zip(a, b):
        p, q = p.detach(), q.detach()
        fin = torch.isfinite(q)
        s = float(q[fin].abs().max()) if bool(fin.any()) else 0.
        ok &= bool(mon.close(torch.where(fin, p, torch.zeros(())), torch.where(fin, q, torch.zeros(())), key, msg, atol=2e-4 * (s + 1e-3), **ctx))
    return ok


def snapshot(m):
    return {k: (v, v.detach().clone()) for k, v in m.state_dict(keep_vars=True).items()}


def drive(mon, m, call, types, hws, pure, inplace, ctx, repeat):
    """call: list of tensors -> output; pure: the result is a function of input and state; repeat: it can be evaluated again"""
    rng = mon.rng
    mk = lambda b, hw: [t32(rng.normal(size=(b, t.size) + hw)) for t in types]
    f = lambda xs: tens(call([x.clone() for x in xs]))
    b = int(rng.integers(1, 4)); hw = hws[0]
    x1, x2 = mk(b, hw), mk(b, hw)
    with torch.no_grad():
        st = snapshot(m); rs = torch.get_rng_state(); ns = np.random.get_state()[1].copy(); tr = {n: q.training for n, q in m.named_modules()}
        arg = [x.clone() for x in x1]; y1 = tens(call(arg)); keep = [q.clone() for q in y1]
        if not inplace: mon.check(all(torch.equal(p, q) for p, q in zip(arg, x1)), "input", "the input was modified", **ctx)
        if pure:
            mon.check(all(torch.equal(v[1], v[0].detach()) or bool((v[1] != v[1]).any()) for v in st.values()) and set(st) == set(m.state_dict()), "state", "evaluating changed the parameters or buffers", **ctx)
            mon.check(torch.equal(rs, torch.get_rng_state()) and bool((ns == np.random.get_state()[1]).all()), "random", "evaluating consumed random numbers", **ctx)
        mon.check(tr == {n: q.training for n, q in m.named_modules()}, "mode", "evaluating changed the mode", **ctx)
        # other calls: same shape, other batch sizes, other spatial sizes
        f(x2); f(mk(b + 1, hw)); f(mk(b, hws[-1]))
        mon.check(all(torch.equal(p, q) or bool((q != q).any()) for p, q in zip(y1, keep)), "earlier", "a later call altered a result returned earlier", **ctx)
        if not repeat: return
        eq(mon, f(x1), keep, "again", "the same input gives another result after other calls", ctx)
        # the caller may do anything with a result
        z = f(x1)
        for q in z: q.mul_(0.).add_(7.)
        eq(mon, f(x1), keep, "owned", "overwriting a returned result changed later results", ctx)
        # samples are independent of each other
        xs = [torch.cat([p, q]) for p, q in zip(x1, x2)]; y2 = f(x2); both = f(xs)
        eq(mon, [q[:b] for q in both], keep, "batch", "a sample gives another result in another batch", ctx); eq(mon, [q[b:] for q in both], y2, "batch", "a sample gives another result in another batch", ctx)
        perm = torch.from_numpy(rng.permutation(2 * b))
        eq(mon, f([q[perm] for q in xs]), [q[perm] for q in both], "batch", "results depend on the order of the batch", ctx)
        # poisoned neighbours
        bad = [torch.cat([p, torch.full_like(q, float(rng.choice([float("nan"), 1e30])))]) for p, q in zip(x1, x2)]
        eq(mon, [q[:b] for q in f(bad)], keep, "neighbour", "a corrupted sample of the batch changed the result of another sample", ctx)
    # gradient modes
    y = tens(call([x.clone().requires_grad_() * 1. for x in x1])); eq(mon, y, keep, "grad-mode", "results depend on whether gradients are recorded", ctx)
    with torch.no_grad():
        eq(mon, tens(call([mem(rng, x.clone()) for x in x1])), keep, "layout", "results depend on the memory layout of the input", ctx)
        z = [torch.zeros_like(x) for x in x1]; a = f(z); f(x2); eq(mon, f(z), a, "again", "vanishing inputs give another result after other calls", ctx)
    if pure:
        with torch.inference_mode(): y = f(x1)
        eq(mon, y, keep, "grad-mode", "results depend on inference mode", ctx)
    del y
    # concurrency
    jobs = [(x1, keep), (x2, y2)] + [(q, None) for q in (mk(b, hws[-1]), mk(b + 1, hw))]
    with torch.no_grad(): jobs = [(q, w if w is not None else f(q)) for q, w in jobs]
    got = [[] for _ in range(6)]; err = []; start = threading.Barrier(6)

    def work(i):
        try:
            start.wait()
            with torch.no_grad():
                for r in range(4):
                    j = (i + r) % len(jobs); got[i].append((j, f(jobs[j][0])))
        except Exception as e: err.append("%s: %s" % (type(e).__name__, e))
    si = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
        for t in ts: t.start()
        for t in ts: t.join()
    finally: sys.setswitchinterval(si)
    mon.check(not err, "concurrent", "a concurrent call failed: %s" % err[:1], **ctx)
    for g in got:
        for j, y in g: eq(mon, y, jobs[j][1], "concurrent", "a concurrent call gave another result", ctx)


def module(mon, rng, sp, s, kind):
    inst = rand_module(rng, sp, s, kind)
    if inst is None: return
    hws = []
    for _ in range(30):
        hw = inst.shape(rng)
        if hw is None: return
        if hw[0] * hw[1] <= 120: hws.append(hw)
        if len(hws) == 2: break
    if not hws: return
    m = inst.m; train = bool(rng.integers(2))
    if kind in BN:
        hws = [(3, 4), (2, 5)]; m.train()
        m(*[GeometricTensor(t32(rng.normal(size=(4, q.size, 3, 3))), q.ft) for q in inst.tins])
        if inst.opts.get("track_running_stats", True) is False: train = True
    m.train(train)
    ctx = {"module": kind, "space": sp, "types": [q.specs for q in inst.tins], "options": inst.opts, "training": train, "shapes": hws}
    stateful = train and kind in BN + DROP
    drive(mon, m, inst.call, inst.tins, hws, not stateful, bool(inst.opts.get("inplace")) or kind in ("relu", "elu", "pointwise"), ctx, not stateful)
    mon.seen("module", kind, train, repr(ctx))


def model(mon, rng, sp, s):
    d = rand_model(rng, sp, s)
    try: m = build_model(sp, s, d)
    except ValueError: return
    t = Ty(sp, s, d["in"])
    with torch.no_grad():
        m.train()
        for _ in range(2): m(GeometricTensor(t32(rng.normal(size=(3, t.size, 9, 9))), t.ft))
    m.eval(); ctx = {"model": d, "space": sp}
    drive(mon, m, lambda xs: m(GeometricTensor(xs[0], t.ft)), [t], [(9, 9), (11, 10)], True, True, ctx, True)
    mon.seen("model", repr(ctx))


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng
    for _ in range(u["n"]):
        if u["k"] == "model": model(mon, rng, sp, s)
        else: module(mon, rng, sp, s, u["k"])
    mon.sample({"space": sp, "kind": u["k"]})
