"""random equivariant models, rebuilt identically from a description"""
from .lay import *


def pool_for(rng, sp, s, n=14, maxsize=8, maxf=3, need=None, kinds=None):
    """rep specs whose representations advertise `need` (callable on the representation)"""
    gs = space_gspec(sp)
    if maxsize >= 8 and rng.integers(10) == 0: maxsize = 18
    base = [("trivial",)] + rep_specs(gs, rng, n, maxsize=maxsize, maxf=maxf, kinds=kinds)
    out = []
    for x in base:
        x = _tt(x)
        r = build_rep(s.fibergroup, gs, x)
        if r.size <= maxsize and (need is None or need(r)) and x not in out: out.append(x)
    return out


def _tt(x):
    return tuple(_tt(y) for y in x) if isinstance(x, (list, tuple)) else x


def draw(rng, pool, n, maxsize=12, sp=None, s=None, wide=True):
    """n fields, total size limited; now and then many more"""
    out, tot = [], 0
    gs = space_gspec(sp)
    if maxsize >= 10 and wide and rng.integers(9) == 0: n, maxsize = int(rng.integers(8, 24)), 44
    for _ in range(n):
        x = pool[int(rng.integers(len(pool)))]
        sz = build_rep(s.fibergroup, gs, x).size
        if out and tot + sz > maxsize: continue
        out.append(x); tot += sz
    return out


BULK = [(65, 1, 1), (33, 2, 1), (1, 65, 2), (1, 2, 70), (2, 34, 33), (129, 1, 1), (1, 129, 1), (17, 3, 3), (66, 2, 2)]


def bulk(rng, p=12):
    """now and then an unusually long batch or image: (batch, height, width)"""
    return BULK[int(rng.integers(len(BULK)))] if rng.integers(p) == 0 else None


def nontrivial(r):
    return not any(r.group.irreps[i].is_trivial() for i in r.irreps)


def has(nl):
    return lambda r: nl in r.supported_nonlinearities


def starts(nl):
    return lambda r: any(q.startswith(nl) for q in r.supported_nonlinearities)


def block(rng, sp, s, tin, dropout=True, pool=True):
    """list of (constructor description) turning a type (list of specs) into another: [(name, args)], out specs"""
    P = lambda need, k=None: pool_for(rng, sp, s, need=need, kinds=k)
    kind = str(rng.choice(["pw", "pw", "norm", "gn", "gated"]))
    lay = str(rng.choice(["conv", "conv", "conv", "convT", "diffop"]))
    cfg = dict(kernel_size=int(rng.choice([1, 3, 3, 5])), bias=bool(rng.integers(4) > 0), padding=1)
    if lay == "diffop": cfg["kernel_size"] = int(rng.choice([3, 5]))
    if lay == "conv" and rng.integers(3) == 0: cfg["padding_mode"] = str(rng.choice(["reflect", "replicate", "circular"]))
    if rng.integers(4) == 0 and lay == "conv": cfg["stride"] = 2
    ops = []
    if kind == "pw":
        out = draw(rng, P(has("pointwise")), int(rng.integers(1, 4)), sp=sp, s=s)
        ops = [("inner", {}), (str(rng.choice(["relu", "elu"])), {})]
        if pool and rng.integers(2): ops.append((str(rng.choice(["maxpool", "avgpool"])), {}))
        if dropout and rng.integers(3) == 0: ops.append(("pdrop", {}))
    elif kind == "norm":
        pl = P(lambda r: has("norm")(r) and nontrivial(r))
        if not pl: return block(rng, sp, s, tin, dropout, pool)
        out = draw(rng, pl, int(rng.integers(1, 4)), sp=sp, s=s)
        ops = [("normbn", {}), ("normnl", {})]
        if dropout and rng.integers(3) == 0: ops.append(("fdrop", {}))
    elif kind == "gn":
        out = draw(rng, P(has("norm")), int(rng.integers(1, 4)), sp=sp, s=s)
        ops = [("gnorm", {}), ("normnl", {})]
    else:
        out = draw(rng, P(has("gated")), int(rng.integers(1, 4)), sp=sp, s=s)
        full = [("trivial",)] * len(out) + out
        return [(lay, dict(out=full, cfg=cfg)), ("gated", {})], out
    return [(lay, dict(out=out, cfg=cfg))] + ops, out


def rand_model(rng, sp, s, depth=None, **kw):
    t = draw(rng, pool_for(rng, sp, s), int(rng.integers(1, 3)), maxsize=6, sp=sp, s=s)
    desc = {"in": t, "ops": []}
    for _ in range(depth or int(rng.integers(1, 3))):
        ops, t = block(rng, sp, s, t, **kw)
        desc["ops"] += ops
    # keep at least one pixel of a 9 x 9 image
    n, ops = 9, []
    for name, a in desc["ops"]:
        if name in ("conv", "diffop"):
            c = a["cfg"]
            if n + 2 < c["kernel_size"]: c["kernel_size"] = 3
            if n < 2 and c.get("padding_mode") == "reflect": c["padding_mode"] = "replicate"
            n = (n + 2 - c["kernel_size"]) // c.get("stride", 1) + 1
        elif name == "convT": n = n - 3 + a["cfg"]["kernel_size"]
        elif name in ("maxpool", "avgpool"):
            if n < 2: continue
            n -= 1
        if n < 1: raise AssertionError("model description too small")
        ops.append((name, a))
    desc["ops"] = ops
    return desc


def build_model(sp, s, desc):
    """a fresh SequentialModule for the description; raises ValueError for empty bases"""
    ft = Ty(sp, s, desc["in"]).ft
    mods = []
    for name, a in desc["ops"]:
        if name in ("conv", "convT", "diffop"):
            out = Ty(sp, s, a["out"]).ft
            cls = {"conv": enn.R2Conv, "convT": enn.R2ConvTransposed, "diffop": enn.R2Diffop}[name]
            m = cls(ft, out, **a["cfg"])
            if m.weights.numel() == 0: raise ValueError("basis for the steerable filter is empty")
        elif name == "inner": m = enn.InnerBatchNorm(ft)
        elif name == "normbn": m = enn.NormBatchNorm(ft)
        elif name == "gnorm": m = enn.GNormBatchNorm(ft)
        elif name == "relu": m = enn.ReLU(ft)
        elif name == "elu": m = enn.ELU(ft)
        elif name == "normnl": m = enn.NormNonLinearity(ft)
        elif name == "gated": m = enn.GatedNonLinearity1(ft)
        elif name == "maxpool": m = enn.PointwiseMaxPool(ft, kernel_size=2, stride=1)
        elif name == "avgpool": m = enn.PointwiseAvgPool(ft, kernel_size=2, stride=1)
        elif name == "pdrop": m = enn.PointwiseDropout(ft, p=0.3)
        elif name == "fdrop": m = enn.FieldDropout(ft, p=0.3)
        else: raise KeyError(name)
        mods.append(m); ft = m.out_type
    return enn.SequentialModule(*mods)
