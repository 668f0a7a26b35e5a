from ..mods import *
from e2cnn.nn import tensor_directsum

RULE = "distinct (module / model / tensor operation, options, space, field types, mode, differentiated quantity) derivatives delivered by back-propagation and compared with difference quotients of the executed function"
ASSUMPTIONS = ["the batch statistics of the norm-based batch normalisations count as constants (the implementation detaches them); inner batch normalisation is differentiated through its statistics",
               "single precision: difference quotients are compared up to a few percent of their size, which resolves missing, duplicated or rescaled contributions",
               "entries of the output at which two difference quotients disagree (kinks and jumps) are excluded by setting their weight to zero"]

SPS = [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[0:2]


def units(tier, rng):
    n = 4 if tier == "quick" else 12
    return ([{"sp": sp, "k": k, "n": n} for sp in SPS for k in ALL] + [{"sp": sp, "k": "model", "n": n} for sp in SPS for _ in range(2)]
            + [{"sp": sp, "k": "tensor", "n": 3 * n} for sp in SPS])


def outs(y):
    return y.tensor if isinstance(y, GeometricTensor) else torch.cat([q.tensor.flatten() for q in y]) if isinstance(y, (list, tuple)) else y


def ddir(mon, fn, leaves, which, u, key, ctx, eps, back=None, again=2):
    """derivative of fn() along the perturbation u of leaves[which]: back-propagation against difference quotients.
    fn evaluates the function from the current values of the leaves; back the function which is differentiated, if not fn"""
    leaf = leaves[which]; base = leaf.detach().clone(); seed = int(mon.rng.integers(2 ** 31))

    def at(h):
        with torch.no_grad():
            leaf.copy_(base + h * u); torch.manual_seed(seed)
            y = fn().detach().double()
            leaf.copy_(base)
        return y
    y0, yp, ym = at(0.), at(eps / 2), at(-eps / 2)
    d1 = (at(eps) - at(-eps)) / (2 * eps); d2 = (yp - ym) / eps; d3 = (at(eps / 4) - at(-eps / 4)) / (eps / 2)
    fin = y0[torch.isfinite(y0)]
    floor = 1e-6 + 1e-6 * float(fin.abs().max() if fin.numel() else 0.) / eps
    ok = torch.isfinite(d1) & torch.isfinite(d2) & torch.isfinite(d3)
    for _ in range(20):                     # the typical slope is the one of the entries which are kept
        tol = 2e-2 * (d2.abs() + (float(d2[ok].abs().mean()) if bool(ok.any()) else 0.)) + floor
        nxt = ok & ((d1 - d2).abs() <= tol) & ((d3 - d2).abs() <= tol) & ((yp - 2 * y0 + ym).abs() / (eps / 2) <= 5 * tol)
        if bool((nxt == ok).all()): break
        ok = nxt
    frac = float(ok.double().mean()) if ok.numel() else 0.
    if frac < .3: mon.seen("not-smooth", key); return None
    v = torch.from_numpy(mon.rng.normal(size=tuple(d2.shape)))
    for l in leaves: l.grad = None
    torch.manual_seed(seed)
    y = (back or fn)()
    keep = y.detach()
    if not y.requires_grad:
        g = None
    else:
        (torch.where(ok, y.double(), torch.zeros((), dtype=torch.double)) * v).sum().backward()
        g = leaf.grad
    ana = float((g.double() * u.double()).sum()) if g is not None else 0.
    w = torch.where(ok, d2, torch.zeros((), dtype=torch.double)) * v
    num = float(w.sum())
    noise = 2e-6 * float(keep[torch.isfinite(keep)].abs().max() if keep.numel() else 0.) * (ok.sum().item() ** .5) / eps
    scale = float((w ** 2).sum() ** .5)
    mon.evals += 1
    err = abs(num - ana)
    mon.maxerr[key] = max(mon.maxerr.get(key, 0.), err / (scale + noise + 1e-6))
    if not err <= .12 * scale + 3 * noise + 1e-4:
        # a disagreement counts if it persists for other step sizes and other weights of the outputs
        if again: return ddir(mon, fn, leaves, which, u, key, ctx, eps * (.35 if again == 2 else 2.), back, again - 1)
        mon.violation(key, "back-propagation gives %.5g, the function changes with %.5g (typical size %.3g, noise %.2g, %d%% of the outputs)" % (ana, num, scale, noise, 100 * frac), **ctx)
    return scale


def judge(mon, fn, x, params, t, ctx, kind, eps, back=None):
    """x: input leaves, params: [(name, leaf)]"""
    rng = mon.rng
    leaves = list(x) + [p for _, p in params]
    unit = lambda s: t32(rng.normal(size=tuple(s)))
    for i, xi in enumerate(x):
        for _ in range(2): ddir(mon, fn, leaves, i, unit(xi.shape), "input", dict(ctx, wrt="input %d" % i), eps, back)
        if t is None: continue
        for f in rng.permutation(len(t[i].specs))[:3]:
            u = torch.zeros(xi.shape); sl = t[i].sl(int(f)); u[:, sl] = unit(u[:, sl].shape)
            ddir(mon, fn, leaves, i, u, "input", dict(ctx, wrt="input %d field %d" % (i, f)), eps, back)
    for j, (n, p) in enumerate(params):
        for _ in range(2): ddir(mon, fn, leaves, len(x) + j, unit(p.shape) * max(1e-1, float(p.detach().abs().mean())), "parameter", dict(ctx, wrt=n), eps, back)
    mon.seen("gradient", kind, repr(ctx))


def accumulate(mon, fn, leaves, ctx):
    """two backward passes add up"""
    for l in leaves: l.grad = None
    torch.manual_seed(5); y = fn()
    if not y.requires_grad: return
    v = t32(mon.rng.normal(size=tuple(y.shape))); m = torch.isfinite(y)
    loss = (torch.where(m, y, torch.zeros(())) * v).sum(); loss.backward()
    one = [None if l.grad is None else l.grad.clone() for l in leaves]
    torch.manual_seed(5); y = fn(); (torch.where(m, y, torch.zeros(())) * v).sum().backward()
    for a, l in zip(one, leaves):
        mon.check((a is None) == (l.grad is None), "accumulate", **ctx)
        if a is not None and a.numel(): mon.close(l.grad, 2 * a, "accumulate", atol=1e-5 * (1 + float(a.abs().max())), **ctx)


def finite(mon, fn, leaves, ctx):
    """wherever the function is finite, so are its gradients: fields which vanish (padding, background, dropped fields) included"""
    for mode in ("all", "some"):
        base = [l.detach().clone() for l in leaves[:len(ctx["types"])]]
        with torch.no_grad():
            for l in leaves[:len(base)]:
                if mode == "all": l.zero_()
                else: l.mul_(torch.from_numpy((mon.rng.random((l.shape[0], 1) + tuple(l.shape[2:])) < .5).astype(np.float32)))
        try:
            for l in leaves: l.grad = None
            torch.manual_seed(6); y = fn()
            if y.requires_grad and bool(torch.isfinite(y).all()):
                (y * t32(mon.rng.normal(size=tuple(y.shape)))).sum().backward()
                for i, l in enumerate(leaves):
                    if l.grad is not None: mon.check(bool(torch.isfinite(l.grad).all()), "finite", "gradient %d is not finite where the features vanish (%s)" % (i, mode), **ctx)
        finally:
            with torch.no_grad():
                for l, b in zip(leaves, base): l.copy_(b)
    mon.seen("finite", ctx.get("module"), repr(ctx))


STATS = ("normbn", "gnorm", "indnormbn")
LAYERS = (enn.R2Conv, enn.R2ConvTransposed, enn.R2Diffop)


def switch(mon, m, train, fn, ctx):
    """enter the mode; gradients of inputs can be computed any number of times in evaluation mode"""
    m.train()
    if train: return
    m.eval()
    try:
        for _ in range(2):
            y = fn()
            if y.requires_grad: torch.where(torch.isfinite(y), y, torch.zeros(())).sum().backward()
    except RuntimeError as e:
        if "second time" not in str(e): raise
        mon.check(False, "eval-second-backward" if any(isinstance(q, LAYERS) for q in m.modules()) else "eval-second-backward-other", "%s" % e, **ctx)
    m.train()
    with torch.no_grad(): m.eval()          # stored filters without history
    for p in m.parameters(): p.grad = None


def module(mon, rng, sp, s, kind):
    inst = rand_module(rng, sp, s, kind)
    if inst is None: return
    m = inst.m
    for _ in range(20):
        hw = inst.shape(rng)
        if hw is None: return
        if hw[0] * hw[1] <= 100: break
    if hw[0] * hw[1] > 400: return
    train = bool(rng.integers(3))
    bn = kind in ("inner", "normbn", "gnorm", "indnormbn")
    if bn and hw[0] * hw[1] < 4: hw = (3, 3)
    b = 3 if bn else int(rng.integers(1, 3))
    ctx = {"module": kind, "space": sp, "types": [q.specs for q in inst.tins], "options": inst.opts, "training": train, "shape": (b,) + hw}
    if bn and not train:
        m.train(); m(*[GeometricTensor(t32(rng.normal(size=(4, q.size, 3, 3))), q.ft) for q in inst.tins])
    xs = [t32(rng.normal(size=(b, q.size) + hw)).requires_grad_() for q in inst.tins]; lay = int(rng.integers(8)); ctx["layout"] = lay
    switch(mon, m, train, lambda: outs(inst.call([relay(lay, x) for x in xs])), ctx)
    params = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
    if kind in ("conv", "convT", "diffop") and not train: params = []        # evaluation mode uses the stored filters
    fn = lambda: outs(inst.call([relay(lay, x) for x in xs]))
    try: fn()
    except ValueError as e:
        if "padding" in str(e).lower() or "size" in str(e).lower(): return
        raise
    if train and kind in STATS:
        # the statistics count as constants: the derivative is the one of the normalisation with the statistics of this batch
        m.momentum = 1.; m.train(); m(*[GeometricTensor(x.detach(), q.ft) for x, q in zip(xs, inst.tins)])
        f0 = fn

        def frozen():
            m.eval()
            try: return f0()
            finally: m.train()
        with torch.no_grad(): mon.close(fn(), frozen(), "statistics", "normalising with the statistics of the batch and with stored ones differs", atol=2e-4 * (1 + float(fn().abs().max())), **ctx)
        judge(mon, frozen, xs, params, inst.tins, ctx, kind, 4e-3, back=fn)
        finite(mon, fn, xs + [p for _, p in params], ctx)
        return
    judge(mon, fn, xs, params, inst.tins, ctx, kind, 4e-3)
    accumulate(mon, fn, xs + [p for _, p in params], ctx)
    finite(mon, fn, xs + [p for _, p in params], ctx)


def model(mon, rng, sp, s):
    d = rand_model(rng, sp, s)
    try: m = build_model(sp, s, d)
    except ValueError: return
    train = bool(rng.integers(3)) and not any(o in STATS for o, _ in d["ops"])
    t = Ty(sp, s, d["in"])
    with torch.no_grad():
        m.train()
        for _ in range(2): m(GeometricTensor(t32(rng.normal(size=(3, t.size, 9, 9))), t.ft))
    ctx = {"model": d, "space": sp, "training": train}
    x = t32(rng.normal(size=(2, t.size, 9, 9))).requires_grad_()
    switch(mon, m, train, lambda: outs(m(GeometricTensor(x * 1., t.ft))), ctx)
    params = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
    if not train: params = [(n, p) for n, p in params if not isinstance(m.get_submodule(n.rpartition(".")[0]), LAYERS)]
    fn = lambda: outs(m(GeometricTensor(x * 1., t.ft)))
    judge(mon, fn, [x], params, [t], ctx, "model", 1e-3)
    accumulate(mon, fn, [x] + [p for _, p in params], ctx)


def tensor(mon, rng, sp, s):
    pl = pool_for(rng, sp, s, n=8, maxsize=6)
    t = Ty(sp, s, draw(rng, pl, int(rng.integers(1, 5)), maxsize=12, sp=sp, s=s)); n = len(t.specs)
    x = t32(rng.normal(size=(2, t.size, 3, 2))).requires_grad_(); z = t32(rng.normal(size=(2, t.size, 3, 2))).requires_grad_()
    X = lambda: GeometricTensor(x * 1., t.ft); Z = lambda: GeometricTensor(z * 1., t.ft)
    els = list(sample_elements(space_gspec(sp), rng, 3)); e = els[int(rng.integers(len(els)))]
    a, b = sorted(int(q) for q in rng.integers(0, n + 1, size=2)); i = int(rng.integers(n))
    br = sorted(set(int(q) for q in rng.integers(1, n, size=2))) if n > 1 else []
    c = float(rng.normal())

    def iop(op):
        def f():
            g = X(); g0 = g
            if op == "+": g += Z()
            elif op == "-": g -= Z()
            else: g *= c
            return g
        return f
    ops = {"add": lambda: X() + Z(), "sub": lambda: X() - Z(), "mul": lambda: X() * c, "rmul": lambda: c * X(), "iadd": iop("+"), "isub": iop("-"), "imul": iop("*"),
           "transform_fibers": lambda: X().transform_fibers(e), "directsum": lambda: tensor_directsum([X(), Z(), X()]), "field": lambda: X()[:, i], "step": lambda: X()[:, ::-1] if n > 1 else X()[:, i],
           "batch": lambda: X()[0:1], "spatial": lambda: X()[:, :, 1:3, 0:1], "split": lambda: X().split(br), "to": lambda: X().to(torch.float32), "neg": lambda: X() * -1.}
    if a < b: ops["slice"] = lambda: X()[:, a:b]
    k = str(rng.choice(sorted(ops)))
    ctx = {"op": k, "space": sp, "types": t.specs, "element": e, "range": (a, b, i), "breaks": br}
    fn = lambda: outs(ops[k]())
    judge(mon, fn, [x, z] if k in ("add", "sub", "iadd", "isub", "directsum") else [x], [], [t, t], ctx, "tensor", 1e-2)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng
    for _ in range(u["n"]):
        if u["k"] == "model": model(mon, rng, sp, s)
        elif u["k"] == "tensor": tensor(mon, rng, sp, s)
        else: module(mon, rng, sp, s, u["k"])
    mon.sample({"space": sp, "kind": u["k"]})
