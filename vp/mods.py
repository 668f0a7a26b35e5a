"""random instances of every module of the library (C20, C21, C22, C24)"""
from .zoo import *
from .checks.c15 import inputs, sub
from .checks.c17 import osize, two, arg

ALL = ["conv", "convT", "diffop", "inner", "normbn", "gnorm", "indnormbn", "relu", "elu", "pointwise", "normnl", "indnormnl", "gated1", "indgated", "concat", "vector",
       "max", "avg", "normmax", "maxaa", "avgaa", "adamax", "adaavg", "up", "mask", "gpool", "normpool", "indnormpool", "pdrop", "fdrop", "identity", "reshuffle", "restrict", "disentangle", "multiple", "gated2"]

EXPORTABLE = {"conv", "convT", "diffop", "inner", "relu", "elu", "max", "maxaa", "adamax", "adaavg", "up", "gpool", "pdrop", "identity", "restrict"}


class Inst:
    def __init__(self, m, tins, opts, fit=lambda h, w: h > 0 and w > 0, size=None):
        self.m, self.tins, self.opts, self.fit, self.size = m, tins, opts, fit, size

    def shape(self, rng):
        """an accepted input size (h, w)"""
        if self.size: return self.size
        for _ in range(200):
            h, w = (int(q) for q in rng.integers(1, 15 if rng.integers(4) else 26, size=2))
            if self.fit(h, w): return h, w
        return None

    def call(self, xs):
        return self.m(*[GeometricTensor(x, t.ft) for x, t in zip(xs, self.tins)])


def subgroup_id(rng, gs):
    ids = subgroup_ids(gs)
    return ids[int(rng.integers(len(ids)))]


def restrict_id(rng, sp):
    """a valid argument of GSpace.restrict with its subspace spec is not needed: only the id"""
    k = sp[0]
    if k == "rot":
        if sp[1] == -1: return int(rng.choice([1, 2, 3, 4, 6]))
        d = [x for x in range(1, sp[1] + 1) if sp[1] % x == 0]
        return int(rng.choice(d))
    if k == "flip": return 1
    if k == "fliprot":
        n = sp[1]
        if n == -1:
            return [(None, int(rng.choice([1, 2, 3, 4]))), (None, -1), (float(rng.choice([0., .4, .403])), int(rng.choice([1, 2, 3, 4])))][int(rng.integers(3))]
        d = int(rng.choice([x for x in range(1, n + 1) if n % x == 0]))
        return (None, d) if rng.integers(2) else (int(rng.integers(0, n // d)), d)
    return None


def rand_module(rng, sp, s, kind, maxsize=12, fields=5):
    gs = space_gspec(sp)

    def ty(need=None, kinds=None, n=None, ms=None):
        pl = pool_for(rng, sp, s, n=12, need=need, maxsize=8, kinds=kinds)
        if not pl: return None
        return Ty(sp, s, draw(rng, pl, n or int(rng.integers(1, fields + 1)), maxsize=ms or maxsize, sp=sp, s=s))

    if kind in ("conv", "convT", "diffop"):
        for _ in range(20):
            g = int(rng.choice([1, 1, 2, 3]))
            pl = pool_for(rng, sp, s, n=6, maxsize=5)
            a = draw(rng, pl, int(rng.integers(1, 4)), maxsize=6, sp=sp, s=s) * g
            b = draw(rng, pl, int(rng.integers(1, 4)), maxsize=6, sp=sp, s=s) * g
            cfg = rand_conv_config(rng, kind)
            if kind == "diffop": cfg["kernel_size"] = int(rng.choice([3, 5])); cfg.pop("dilation"); 
            if kind != "convT" and rng.integers(4) == 0: cfg["padding"] = (int(rng.integers(0, 3)), int(rng.integers(0, 3)))
            if kind == "convT" and rng.integers(2): cfg["output_padding"] = int(rng.integers(0, max(cfg["stride"], cfg["dilation"])))
            if g > 1: cfg["groups"] = g
            ti, to = Ty(sp, s, a), Ty(sp, s, b)
            try: m = make_layer(kind, ti, to, cfg, {})
            except ValueError as e:
                if "basis for the steerable" not in str(e): raise
                continue
            if m.weights.numel() == 0: continue
            randomize(m, rng)
            k, st, dl = cfg["kernel_size"], cfg["stride"], cfg.get("dilation", 1)
            p = pair(cfg["padding"]); mode = cfg.get("padding_mode", "zeros")

            def fit(h, w):
                for n, q in zip((h, w), p):
                    if kind == "convT":
                        if (n - 1) * st - 2 * q + dl * (k - 1) + cfg.get("output_padding", 0) + 1 < 1: return False
                        continue
                    if n + 2 * q < dl * (k - 1) + 1: return False
                    if mode == "reflect" and q >= n or mode == "circular" and q > n: return False
                return True
            return Inst(m, [ti], dict(cfg, out=b), fit)
        return None
    simple = {"inner": (enn.InnerBatchNorm, has("pointwise")), "gnorm": (enn.GNormBatchNorm, None), "normbn": (enn.NormBatchNorm, lambda r: has("norm")(r) and nontrivial(r)),
              "relu": (enn.ReLU, has("pointwise")), "elu": (enn.ELU, has("pointwise")), "pointwise": (enn.PointwiseNonLinearity, has("pointwise")),
              "normnl": (enn.NormNonLinearity, has("norm")), "gpool": (enn.GroupPooling, has("pointwise")), "normpool": (enn.NormPool, has("norm")),
              "pdrop": (enn.PointwiseDropout, has("pointwise")), "fdrop": (enn.FieldDropout, None), "identity": (enn.IdentityModule, None), "disentangle": (enn.DisentangleModule, None)}
    if kind in simple:
        cls, need = simple[kind]
        t = ty(need)
        if t is None: return None
        kw = {}
        if kind in ("inner", "gnorm", "normbn"): kw = dict(eps=float(rng.choice([1e-5, 1e-2])), momentum=[.1, .5, None][int(rng.integers(3))], affine=bool(rng.integers(4)))
        if kind == "inner" and rng.integers(8) == 0: kw["track_running_stats"] = False
        if kind == "relu": kw = dict(inplace=bool(rng.integers(2)))
        if kind == "elu": kw = dict(inplace=bool(rng.integers(2)), alpha=float(rng.choice([1., .3, 2.])))
        if kind == "pointwise": kw = dict(function=str(rng.choice(["p_relu", "p_elu", "p_sigmoid", "p_tanh"])))
        if kind == "normnl":
            kw = dict(function=str(rng.choice(["n_relu", "n_sigmoid"])), bias=bool(rng.integers(2)))
        if kind in ("pdrop", "fdrop"): kw = dict(p=float(rng.choice([.1, .5, .9])), inplace=bool(rng.integers(2)))
        m = cls(t.ft, **kw)
        if kind in ("inner", "gnorm", "normbn") and kw["affine"]:
            with torch.no_grad():
                for p in m.parameters():
                    if p.requires_grad: p.copy_(t32(rng.uniform(.5, 2, size=tuple(p.shape))))
        return Inst(m, [t], kw)
    if kind in ("indnormbn", "indnormnl", "indnormpool"):
        need = (lambda r: len(sub(r, "induced_norm")) == 1 and nontrivial(r)) if kind == "indnormbn" else (lambda r: len(sub(r, "induced_norm")) == 1)
        t = ty(need, ["induced", "induced", "irrep"] if kind == "indnormbn" else ["quotient", "regular", "induced", "irrep"])
        if t is None: return None
        cls = {"indnormbn": enn.InducedNormBatchNorm, "indnormnl": enn.InducedNormNonLinearity, "indnormpool": enn.InducedNormPool}[kind]
        return Inst(cls(t.ft), [t], {})
    if kind in ("gated1", "gated2"):
        pl = pool_for(rng, sp, s, n=12, need=has("gated"), maxsize=8)
        gd = draw(rng, pl, int(rng.integers(1, 4)), maxsize=10, sp=sp, s=s)
        if kind == "gated2":
            t, g = Ty(sp, s, gd), Ty(sp, s, [("trivial",)] * len(gd))
            return Inst(enn.GatedNonLinearity2((g.ft, t.ft)), [g, t], {})
        lab = ["gate"] * len(gd) + ["gated"] * len(gd); rng.shuffle(lab)
        it = iter(gd); t = Ty(sp, s, [("trivial",) if l == "gate" else next(it) for l in lab])
        kw = dict(gates=lab, drop_gates=bool(rng.integers(2)))
        return Inst(enn.GatedNonLinearity1(t.ft, **kw), [t], kw)
    if kind == "indgated":
        if gs[0] not in ("C", "D"): return None
        for _ in range(10):
            sid = subgroup_id(rng, gs); gate = ("quotient", sid)
            rg = build_rep(s.fibergroup, gs, gate)
            if rg.size > 6 or "induced_gate" not in rg.supported_nonlinearities: continue
            pl = [("induced", sid, i) for i in irrep_ids(subgroup_spec(gs, sid))]
            pl = [p for p in pl if len(sub(build_rep(s.fibergroup, gs, p), "induced_gated")) == 1]
            if not pl: continue
            gd = draw(rng, pl, int(rng.integers(1, 3)), maxsize=20, sp=sp, s=s)
            lab = ["gate"] * len(gd) + ["gated"] * len(gd); rng.shuffle(lab)
            it = iter(gd); t = Ty(sp, s, [gate if l == "gate" else next(it) for l in lab])
            kw = dict(gates=lab, drop_gates=bool(rng.integers(2)))
            return Inst(enn.InducedGatedNonLinearity1(t.ft, **kw), [t], kw)
        return None
    if kind == "concat":
        if gs[0] not in ("C", "D"): return None
        t = ty(has("concatenated"), ms=6)
        if t is None: return None
        for attempt in range(6):
            try: return Inst(enn.ConcatenatedNonLinearity(t.ft), [t], {})
            except (ZeroDivisionError, AssertionError):
                if attempt == 5: raise
    if kind == "vector":
        if sp[0] != "rot" or sp[1] < 2: return None
        t = Ty(sp, s, [("regular",)] * int(rng.integers(1, 4)))
        return Inst(enn.VectorFieldNonLinearity(t.ft), [t], {})
    if kind == "reshuffle":
        t = ty(); p = [int(i) for i in rng.permutation(len(t.specs))]
        return Inst(enn.ReshuffleModule(t.ft, p), [t], dict(permutation=p))
    if kind == "restrict":
        i = restrict_id(rng, sp)
        if i is None: return None
        t = ty()
        return Inst(enn.RestrictionModule(t.ft, i), [t], dict(id=i))
    if kind == "multiple":
        t = ty(has("pointwise")); n = len(t.specs)
        lab = ["l%d" % int(rng.integers(0, 3)) for _ in range(n)]
        order = sorted(set(lab)); rng.shuffle(order)
        gr = t.ft.group_by_labels(lab)
        mods = [(enn.ReLU(gr[l]) if rng.integers(2) else enn.PointwiseMaxPool(gr[l], kernel_size=3, stride=1, padding=1), l) for l in order]
        return Inst(enn.MultipleModule(t.ft, lab, mods), [t], dict(labels=lab, order=list(order)), lambda h, w: h >= 3 and w >= 3)
    if kind == "mask":
        t = ty(); S = int(rng.integers(1, 12))
        return Inst(enn.MaskModule(t.ft, S), [t], dict(S=S), size=(S, S))
    # windows
    need = has("norm") if kind == "normmax" else (has("pointwise") if kind in ("max", "maxaa", "adamax", "adaavg") else None)
    t = ty(need)
    if t is None: return None
    sq = bool(rng.integers(2))
    ks = two(rng, [1, 2, 2, 3, 3, 4, 5], sq); st = two(rng, [1, 2, 2, 3], sq); pd = tuple(int(rng.integers(0, q // 2 + 1)) for q in ks)
    if kind in ("max", "avg", "normmax"):
        kw = dict(kernel_size=arg(rng, ks), padding=arg(rng, pd), ceil_mode=bool(rng.integers(3) == 0))
        if rng.integers(4): kw["stride"] = arg(rng, st)
        dl = (1, 1)
        if kind != "avg": dl = two(rng, [1, 1, 2], sq); kw["dilation"] = arg(rng, dl)
        cls = {"max": enn.PointwiseMaxPool, "avg": enn.PointwiseAvgPool, "normmax": enn.NormMaxPool}[kind]
        stv = st if "stride" in kw else ks

        def fit(h, w):
            for n, p, d, q, z in zip((h, w), pd, dl, ks, stv):
                if n + 2 * p < d * (q - 1) + 1: return False
                # every window covers at least one point which is not padding
                for a in range(-p, n + p, z):
                    if a + d * (q - 1) < n + p + z and not any(0 <= a + d * j < n for j in range(q)) and (a + d * (q - 1) < n + p or kw["ceil_mode"]): return False
            return True
        return Inst(cls(t.ft, **kw), [t], kw, fit)
    if kind == "maxaa":
        kw = dict(kernel_size=arg(rng, ks), padding=arg(rng, pd), stride=arg(rng, st), sigma=float(rng.choice([.6, .4, 1.])))
        return Inst(enn.PointwiseMaxPoolAntialiased(t.ft, **kw), [t], kw, lambda h, w: h + 2 * pd[0] >= ks[0] and w + 2 * pd[1] >= ks[1])
    if kind == "avgaa":
        sg = float(rng.choice([.6, .4, 1.])); n = 2 * int(round(3 * sg)) + 1
        kw = dict(sigma=sg, stride=arg(rng, st) if rng.integers(5) else None); p = (n // 2,) * 2
        if rng.integers(2):
            p = two(rng, [1, 2, 3], sq); kw["padding"] = arg(rng, p)
        return Inst(enn.PointwiseAvgPoolAntialiased(t.ft, **kw), [t], kw, lambda h, w: h + 2 * p[0] >= n and w + 2 * p[1] >= n)
    if kind in ("adamax", "adaavg"):
        o = two(rng, [1, 1, 2, 3, 4, 5], sq)
        return Inst((enn.PointwiseAdaptiveMaxPool if kind == "adamax" else enn.PointwiseAdaptiveAvgPool)(t.ft, arg(rng, o)), [t], dict(o=o))
    if kind == "up":
        kw = dict(scale_factor=[1, 2, 3, 1.3, 1.5, 2.25, .5, .75, 1.7, 2.][int(rng.integers(10))]) if rng.integers(2) else dict(size=arg(rng, two(rng, [1, 3, 6, 7, 10], sq)))
        if rng.integers(3) == 0: kw["mode"] = "nearest"
        if rng.integers(2): kw["align_corners"] = True
        f = kw.get("scale_factor", 1)
        return Inst(enn.R2Upsampling(t.ft, **kw), [t], kw, lambda h, w: int(h * f) > 0 and int(w * f) > 0)
    raise KeyError(kind)
