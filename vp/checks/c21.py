from ..mods import *

RULE = "distinct (module, options, space, field types, input shape) calls seen by the forward hooks, each compared with the announced type and shape"
ASSUMPTIONS = ["the announced shape may be any sequence of four integers", "PointwiseMaxPoolAntialiased with ceil_mode is a known finding (key antialiased-ceil_mode) and not drawn beyond that"]

SPS = [("triv",), ("flip", 0.), ("flip", .4), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[0:2]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in ALL] + [{"sp": sp, "k": "model", "n": i} for sp in SPS for i in range(5 if tier == "quick" else 30)] + \
           [{"sp": sp, "k": "tree", "n": i} for sp in SPS for i in range(5 if tier == "quick" else 30)]


def announced(m, args):
    if isinstance(m, enn.MergeModule): return m.evaluate_output_shape(**{l: tuple(x.tensor.shape) for l, x in args[0].items()})
    return m.evaluate_output_shape(*[tuple(x.tensor.shape) for x in args])


class Hook:
    """online monitor of every call of every equivariant module below a root"""

    def __init__(self, mon, root, ctx):
        self.mon, self.ctx, self.calls = mon, ctx, 0
        self.h = [m.register_forward_hook(self.seen) for m in root.modules() if isinstance(m, enn.EquivariantModule)]

    def seen(self, m, args, out):
        mon, ctx = self.mon, dict(self.ctx, module=type(m).__name__)
        self.calls += 1
        try: an = announced(m, args)
        except Exception as e:
            mon.violation("announce-raises", "%s: %s" % (type(e).__name__, e), shape=[tuple(x.tensor.shape) for x in args] if not isinstance(args[0], dict) else "", **ctx); return
        if isinstance(out, dict):
            if not mon.check(isinstance(an, dict) and set(an) == set(out) == set(m.out_type), "announced-branches", **ctx): return
            tri = [(out[l], an[l], m.out_type[l]) for l in out]
        else: tri = [(out, an, m.out_type)]
        for o, a, t in tri:
            if not mon.check(isinstance(o, GeometricTensor), "output-not-geometric", **ctx): continue
            mon.check(o.type == t and t == o.type, "announced-type", "announced %s, output %s" % (t, o.type), **ctx)
            mon.check(o.tensor.dim() == 4 and o.tensor.shape[1] == t.size == sum(r.size for r in t.representations), "channels", "tensor %s, type size %d" % (tuple(o.tensor.shape), t.size), **ctx)
            ok = len(a) == 4 and all(isinstance(q, (int, np.integer)) for q in a)
            mon.check(ok and tuple(int(q) for q in a) == tuple(o.tensor.shape), "announced-shape", "announced %s, output %s" % (a, tuple(o.tensor.shape)),
                      input=[tuple(x.tensor.shape) for x in args] if not isinstance(args[0], dict) else {l: tuple(x.tensor.shape) for l, x in args[0].items()}, **ctx)
        mon.seen(type(m).__name__, ctx.get("space"), ctx.get("options"), ctx.get("types"), tuple(out.tensor.shape) if not isinstance(out, dict) else tuple(sorted(out)))

    def close(self):
        for h in self.h: h.remove()


def drive(mon, inst, ctx, n):
    rng = mon.rng
    hk = Hook(mon, inst.m, ctx)
    done = 0
    for _ in range(n):
        hw = inst.shape(rng)
        if hw is None: break
        done += 1
        bn = any(isinstance(q, torch.nn.modules.batchnorm._BatchNorm) or "BatchNorm" in type(q).__name__ for q in inst.m.modules())
        inst.m.train(bool(rng.integers(2)) and not (bn and hw[0] * hw[1] < 2))
        b = int(rng.choice([1, 2, 3]))
        torch.set_grad_enabled(bool(rng.integers(2)))
        xs = [ask_grad(rng, mem(rng, t32(rng.normal(size=(b, t.size) + hw)))) for t in inst.tins]
        st = torch.random.get_rng_state()
        sh = inst.m.evaluate_output_shape(*[tuple(x.shape) for x in xs])   # in advance
        mon.check(torch.equal(st, torch.random.get_rng_state()), "announce-uses-rng", **ctx)
        y = inst.call(xs)
        if not isinstance(y, dict): mon.check(tuple(sh) == tuple(y.tensor.shape), "announced-shape", "announced %s, output %s" % (sh, tuple(y.tensor.shape)), input=[tuple(x.shape) for x in xs], **ctx)
    mon.check(hk.calls > 0, "hook-saw-nothing", **ctx) if done else None
    hk.close()


def tree(rng, sp, s):
    """branching by labels into chains, one branch module with two inputs, merged again, then restricted"""
    pl = pool_for(rng, sp, s, n=10, need=has("gated"), maxsize=6)
    gd = draw(rng, pl, int(rng.integers(1, 4)), maxsize=10, sp=sp, s=s)
    pw = draw(rng, pool_for(rng, sp, s, n=10, need=has("pointwise"), maxsize=6), int(rng.integers(1, 4)), maxsize=8, sp=sp, s=s)
    items = [("a", x) for x in gd] + [("g", ("trivial",)) for _ in gd] + [("p", x) for x in pw]
    items = [items[i] for i in rng.permutation(len(items))]
    t = Ty(sp, s, [x for _, x in items]); lab = [l for l, _ in items]
    r = int(rng.integers(0, 4))
    br = enn.BranchingModule(t.ft, lab, reshuffle=r)
    ga = enn.GatedNonLinearity2((br.out_type["g"], br.out_type["a"]))
    chain = [enn.ReLU(br.out_type["p"])]
    k = int(rng.choice([1, 3]))
    chain.append([lambda: enn.PointwiseMaxPool(br.out_type["p"], kernel_size=k, stride=1, padding=k // 2), lambda: enn.R2Conv(br.out_type["p"], br.out_type["p"], kernel_size=k, padding=k // 2), lambda: enn.PointwiseAvgPoolAntialiased(br.out_type["p"], sigma=.6, stride=1)][int(rng.integers(3))]())
    mods = [(ga, ["g", "a"]), (enn.SequentialModule(*chain), "p")]
    if rng.integers(2): mods.reverse()
    m = enn.MultipleModule(t.ft, lab, mods, reshuffle=r)
    i = restrict_id(rng, sp)
    if i is not None: m = enn.SequentialModule(m, enn.RestrictionModule(m.out_type, i)) if rng.integers(2) else enn.SequentialModule(m, enn.RestrictionModule(m.out_type, i), enn.DisentangleModule(m.out_type.restrict(i)))
    return Inst(m, [t], dict(labels=lab, reshuffle=r, order=[l for _, l in mods], k=k, restrict=i), lambda h, w: h >= 3 and w >= 3)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]
    for _ in range((10 if k not in ("conv", "convT", "diffop", "max", "avg", "normmax", "maxaa", "avgaa", "up") else 24) if mon.tier == "quick" else 80):
        if k == "model":
            d = rand_model(rng, sp, s)
            try: m = build_model(sp, s, d)
            except ValueError as e:
                if "basis for the steerable" not in str(e): raise
                continue
            inst = Inst(m, [Ty(sp, s, d["in"])], d["ops"], lambda h, w: h >= 14 and w >= 14)
        elif k == "tree": inst = tree(rng, sp, s)
        else: inst = rand_module(rng, sp, s, k)
        if inst is None: return
        ctx = {"kind": k, "space": sp, "types": repr([t.specs for t in inst.tins]), "options": repr(inst.opts)}
        with mon.guard("call", **ctx):
            drive(mon, inst, ctx, 4 if mon.tier == "quick" else 8)
        mon.sample(ctx)
    if k == "maxaa":
        # the known finding: ceil_mode is ignored by the blurring convolution
        t = Ty(sp, s, [("trivial",)]); m = enn.PointwiseMaxPoolAntialiased(t.ft, kernel_size=3, stride=2, ceil_mode=True)
        y = m(GeometricTensor(torch.zeros(1, 1, 8, 8), t.ft))
        mon.check(tuple(m.evaluate_output_shape((1, 1, 8, 8))) == tuple(y.tensor.shape), "antialiased-ceil_mode", "announced %s, output %s" % (m.evaluate_output_shape((1, 1, 8, 8)), tuple(y.tensor.shape)))
