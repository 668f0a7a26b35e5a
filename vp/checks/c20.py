from ..mods import *
import io

RULE = "distinct (module or model, options, space, field types, history) exports whose plain module was executed next to the equivariant one on several inputs"
ASSUMPTIONS = ["exports documented as unsupported (interleaved inner batch normalisation, group pooling of different sizes, statistics not tracked) may be refused",
               "single precision tensors"]

SPS = [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[2:4]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in ALL if k != "gated2"] + [{"sp": sp, "k": "model", "n": i} for sp in SPS for i in range(8 if tier == "quick" else 30)]


def refusal(inst, kind, e):
    """a documented refusal"""
    if kind not in EXPORTABLE: return isinstance(e, NotImplementedError)
    t = inst.tins[0]
    if kind == "inner":
        if isinstance(e, ValueError): return inst.opts.get("track_running_stats") is False
        seen, last = set(), None
        for z in t.sizes:
            if z != last and z in seen: return isinstance(e, NotImplementedError)
            seen.add(z); last = z
        return False
    if kind == "gpool": return isinstance(e, NotImplementedError) and len(set(t.sizes)) > 1
    return False


def plain(mon, p, ctx):
    mon.check(isinstance(p, torch.nn.Module) and not any(isinstance(q, (enn.EquivariantModule, enn.ModuleList)) for q in p.modules()), "contains-equivariant", "%s" % p, **ctx)


def fin(y):
    """windows which contain only padding pool to -inf: compared as a marker"""
    y = npy(y) if not isinstance(y, np.ndarray) else y
    return np.where(np.isneginf(y), np.float32(-12345.), y)


def compare(mon, inst, p, ctx, n=3):
    """evaluation-mode equivariant module against the plain module"""
    rng = mon.rng
    inst.m.eval()
    outs = []
    for _ in range(n):
        hw = inst.shape(rng)
        if hw is None: return outs
        nb = int(rng.integers(1, 4)) if hw[0] * hw[1] > 60 or rng.integers(10) else int(rng.choice([17, 33, 70]))
        x, lay = inputs(rng, (nb, inst.tins[0].size) + hw)
        if lay == "expanded": x = x.contiguous()
        keep = x.clone()
        torch.set_grad_enabled(bool(rng.integers(2)))
        y = inst.m(GeometricTensor(x.clone(memory_format=torch.preserve_format), inst.tins[0].ft)).tensor
        z = p(x)
        mon.check(isinstance(z, torch.Tensor), "plain-tensor", **ctx)
        mon.close(fin(z), fin(y), "function", "the exported module computes another function", atol=2e-5 * (1 + np.abs(npy(y)[np.isfinite(npy(y))]).max(initial=0.)), layout=lay, shape=tuple(keep.shape), **ctx)
        outs.append((keep, fin(y)))
    return outs


def still(mon, p, outs, key, ctx):
    for x, y in outs:
        mon.close(fin(p(x.clone())), y, key, atol=2e-5 * (1 + np.abs(y).max(initial=0.)), **ctx)


def stir(mon, inst, steps):
    """train the equivariant module a little: changes weights and statistics"""
    rng = mon.rng; m = inst.m
    m.train(); torch.set_grad_enabled(True)
    for _ in range(steps):
        hw = inst.shape(rng)
        if hw is None: return
        if any(isinstance(q, torch.nn.modules.batchnorm._BatchNorm) for q in m.modules()) and hw[0] * hw[1] < 2: hw = (3, 4) if inst.fit(3, 4) else (9, 9)
        x = t32(rng.normal(size=(3, inst.tins[0].size) + hw) * 2 + 1)
        m(GeometricTensor(x, inst.tins[0].ft))
        with torch.no_grad():
            for q in m.parameters():
                if q.requires_grad: q.add_(.1 * torch.randn_like(q))


def judge(mon, inst, kind, ctx, must):
    rng = mon.rng; m = inst.m
    hist = []
    if rng.integers(4): stir(mon, inst, int(rng.integers(1, 3))); hist.append("train")
    if rng.integers(2): m.eval(); hist.append("eval")
    ctx["history"] = hist
    before = {k: v.detach().clone() for k, v in m.named_parameters()}
    try:
        p = m.export()
    except Exception as e:
        mon.check(not must(e), "export-refused", "%s: %s" % (type(e).__name__, e), **ctx)
        mon.seen("refused", kind, ctx["space"], repr(inst.opts), repr(ctx["types"]))
        return
    plain(mon, p, ctx)
    mon.check(all(torch.equal(v, before[k]) for k, v in m.named_parameters()), "export-changes-parameters", **ctx)
    outs = compare(mon, inst, p, ctx)
    # later changes of the equivariant module do not reach the exported one
    for op in rng.permutation(["train", "load", "eval", "reexport"])[:3]:
        hist.append(str(op))
        if op == "train": stir(mon, inst, 2)
        elif op == "eval": m.train(); m.eval()
        elif op == "load":
            m.eval()
            try: m.load_state_dict({k: (v + 1 if v.dtype == torch.float32 else v) for k, v in m.state_dict().items()})
            except RuntimeError: pass
        else:
            m.train(); p2 = m.export(); compare(mon, inst, p2, ctx, 1)
        still(mon, p, outs, "later-changes", ctx)
    # mode switches of the plain module: back in evaluation mode it is the same function
    p.train(); p.eval()
    still(mon, p, outs, "plain-mode", ctx)
    # its state can be stored and it does not write into the equivariant module
    m.train(); m.eval()
    hw = inst.shape(rng)
    if hw is not None:
        x = t32(rng.normal(size=(2, inst.tins[0].size) + hw)); g = lambda: npy(m(GeometricTensor(x.clone(), inst.tins[0].ft)).tensor)
        p3 = m.export(); a = g()
        with torch.no_grad():
            for q in p3.parameters(): q.add_(3.)
            for q in p3.buffers():
                if q.dtype == torch.float32: q.add_(1.)
        mon.close(fin(g()), fin(a), "writes-back", "changing the exported module changes the equivariant one", atol=0., **ctx)
    mon.seen("export", kind, ctx["space"], repr(inst.opts), repr(ctx["types"]), repr(hist))
    mon.sample(dict(module=kind, space=str(ctx["space"]), types=str(ctx["types"]), options=str(inst.opts), history=str(hist)))


def exportable_model(rng, sp, s):
    """a chain of exportable modules, possibly nested / with shared stateless modules / named by an OrderedDict"""
    from collections import OrderedDict
    P = pool_for(rng, sp, s, n=10, need=has("pointwise"), maxsize=6)
    t = Ty(sp, s, draw(rng, P, int(rng.integers(1, 3)), maxsize=6, sp=sp, s=s)); t0 = t
    mods, desc = [], []
    for _ in range(int(rng.integers(1, 4))):
        out = Ty(sp, s, draw(rng, P, int(rng.integers(1, 4)), maxsize=10, sp=sp, s=s) if rng.integers(2) else [P[int(rng.integers(len(P)))]] * int(rng.integers(1, 3)))
        cls = [enn.R2Conv, enn.R2Conv, enn.R2ConvTransposed][int(rng.integers(3))]
        kw = dict(kernel_size=3, padding=1, bias=bool(rng.integers(2)))
        if cls is enn.R2Conv and rng.integers(2): kw["padding_mode"] = str(rng.choice(["zeros", "reflect", "circular", "replicate"]))
        try: c = cls(t.ft, out.ft, **kw)
        except ValueError: continue
        if c.weights.numel() == 0: continue
        chain = [c]; t = out
        r = enn.ReLU(t.ft, inplace=bool(rng.integers(2)))
        for k in rng.choice(["bn", "relu", "elu", "drop", "pool", "up", "id", "relu2"], size=int(rng.integers(1, 4))):
            chain.append({"bn": lambda: enn.InnerBatchNorm(t.ft), "relu": lambda: enn.ReLU(t.ft, inplace=bool(rng.integers(2))), "relu2": lambda: r, "elu": lambda: enn.ELU(t.ft, alpha=.7), "drop": lambda: enn.PointwiseDropout(t.ft, p=.4),
                          "pool": lambda: enn.PointwiseMaxPoolAntialiased(t.ft, kernel_size=3, stride=1, padding=1) if rng.integers(2) else enn.PointwiseMaxPool(t.ft, kernel_size=3, stride=1, padding=1),
                          "up": lambda: enn.R2Upsampling(t.ft, size=9), "id": lambda: enn.IdentityModule(t.ft)}[str(k)]())
        desc += [type(q).__name__ for q in chain]
        if rng.integers(2): mods.append(enn.SequentialModule(*chain)); desc.append("|")
        else: mods += chain
    if not mods: return None
    if len(set(t.sizes)) == 1 and rng.integers(2): mods.append(enn.GroupPooling(t.ft)); desc.append("GroupPooling")
    if rng.integers(2): m = enn.SequentialModule(*mods)
    else: m = enn.SequentialModule(OrderedDict([("n%d" % (7 * i % 5 + 10 * i), q) for i, q in enumerate(mods)]))
    return Inst(m, [t0], desc, lambda h, w: h >= 5 and w >= 5)


def interleaved(m):
    for q in m.modules():
        if isinstance(q, enn.InnerBatchNorm):
            seen, last = set(), None
            for r in q.in_type:
                if r.size != last and r.size in seen: return True
                seen.add(r.size); last = r.size
    return False


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]
    for _ in range(10 if mon.tier == "quick" else 60):
        if k == "model":
            inst = exportable_model(rng, sp, s)
            if inst is None: continue
            ctx = {"module": k, "space": sp, "types": inst.tins[0].specs, "options": inst.opts}
            with mon.guard("export", **ctx):
                if rng.integers(3) == 0: judge_list(mon, inst, ctx)
                else: judge(mon, inst, k, ctx, lambda e: not (interleaved(inst.m) and isinstance(e, NotImplementedError)))
            continue
        inst = rand_module(rng, sp, s, k)
        if inst is None: return
        ctx = {"module": k, "space": sp, "types": inst.tins[0].specs, "options": inst.opts}
        with mon.guard("export", **ctx):
            judge(mon, inst, k, ctx, lambda e: not refusal(inst, k, e))


def judge_list(mon, inst, ctx):
    """ModuleList.export exports each element in order"""
    mods = list(inst.m._modules.values())
    if interleaved(inst.m): return
    stir(mon, inst, 1)
    ml = enn.ModuleList(mods)
    p = ml.export()
    plain(mon, p, ctx)
    if not mon.check(len(p) == len(mods), "list-length", **ctx): return
    x = t32(mon.rng.normal(size=(2, inst.tins[0].size, 9, 9)))
    g = GeometricTensor(x.clone(), inst.tins[0].ft); z = x.clone()
    for a, b in zip(mods, p):
        g = a(g); z = b(z)
        mon.close(npy(z), npy(g.tensor), "function", "element of an exported list", atol=5e-5 * (1 + np.abs(npy(g.tensor)).max()), **ctx)
    mon.seen("list", ctx["space"], repr(ctx["types"]), repr(ctx["options"]))
