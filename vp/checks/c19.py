from ..zoo import *
from .c15 import inputs

RULE = "distinct (module, probability, in-place, field types, layout) dropout executions whose every entry was classified as dropped / kept, plus drop counts per field"
ASSUMPTIONS = ["decisions are random: frequencies are judged with a 6 sigma tolerance", "PointwiseDropout is the documented wrapper of torch dropout, so its decisions are per entry"]

SPS = [("triv",), ("flip", np.pi / 2), ("rot", 3), ("rot", 4), ("rot", -1, 3), ("fliprot", 2, 0.), ("fliprot", 4, 0.4), ("fliprot", -1, 3, np.pi / 2)] + MORE_SPACES


def units(tier, rng):
    return [{"sp": sp, "k": k, "inplace": b} for sp in SPS for k in ("field", "point") for b in (False, True)]


def agree(mon, a, b, p, what, ctx):
    """independent decisions agree with probability p^2 + (1-p)^2"""
    n = a.size; q = p * p + (1 - p) * (1 - p); c = (a == b).sum()
    # overlapping pairs (neighbours) are correlated: a factor two in the variance bounds them
    mon.check(abs(c - n * q) <= 7 * np.sqrt(2 * n * q * (1 - q)) + 12, "independent", "%s agree in %d of %d decisions, expected %.1f" % (what, c, n, n * q), **ctx)


def independence(mon, rng, t, keep, k, p, prev, ctx):
    d = [keep[:, t.sl(i)][:, :1] if k == "field" else keep[:, t.sl(i)] for i in range(len(t.specs))]
    pairs = [(i, j) for j in range(len(d)) for i in range(j)]
    if len(pairs) > 40: pairs = [pairs[int(q)] for q in rng.permutation(len(pairs))[:40]]
    for i, j in pairs:
        if k == "field" or d[i].shape == d[j].shape: agree(mon, d[i], d[j], p, "fields %d and %d" % (i, j), ctx)
    for i, a in enumerate(d):
        for ax, nm in ((0, "samples"), (1, "channels"), (2, "rows"), (3, "columns")):
            for st in {1, int(rng.integers(1, 4))}:
                if a.shape[ax] > st:
                    lo = [slice(None)] * 4; hi = list(lo); lo[ax] = slice(None, -st); hi[ax] = slice(st, None)
                    agree(mon, a[tuple(lo)], a[tuple(hi)], p, "%s (distance %d) of field %d" % (nm, st, i), ctx)
        if prev is not None:
            b = prev[:, t.sl(i)][:, :1] if k == "field" else prev[:, t.sl(i)]
            agree(mon, a, b, p, "two calls, field %d" % i, ctx)


def extremes(mon, rng, t, m, ctx):
    """the extreme values a uniform draw in [0, 1) can take must not drop anything at p = 0, nor keep anything at p = 1"""
    orig = torch.Tensor.uniform_
    for v in (0., 1 - 2. ** -24):
        x = t32(rng.uniform(1, 2, size=(2, t.size, 3, 4)))
        torch.Tensor.uniform_ = lambda self, *a, **k: self.fill_(v) if not a and not k else orig(self, *a, **k)
        try: y = npy(m(GeometricTensor(x.clone(), t.ft)).tensor)
        finally: torch.Tensor.uniform_ = orig
        mon.close(y, npy(x) * (m.p == 0), "extreme-draw", "uniform draw %r" % v, atol=0., **ctx)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]; inp = u["inplace"]
    need = has("pointwise") if k == "point" else None
    cls = enn.FieldDropout if k == "field" else enn.PointwiseDropout
    for _ in range(72 if mon.tier == "quick" else 150):
        pl = pool_for(rng, sp, s, n=10, need=need, maxsize=6 if rng.integers(4) else 16)
        sc = draw(rng, pl, int(rng.integers(1, 7)), maxsize=14 if rng.integers(4) else 40, sp=sp, s=s)
        t = Ty(sp, s, sc)
        p = float(rng.choice([0., 0.1, 0.3, 0.5, 0.5, 0.8, 0.95, 1.]))
        m = cls(t.ft, p=p, inplace=inp)
        ctx = {"module": k, "space": sp, "types": sc, "p": p, "inplace": inp}
        B, H, W = int(rng.integers(2, 7)), int(rng.integers(6, 14)), int(rng.integers(6, 14))
        if rng.integers(5) == 0: B, H, W = [(1, 9, 12), (200, 1, 1), (30, 1, 7), (30, 7, 1), (1, 40, 30)][int(rng.integers(5))]
        # no zeros, so dropped entries are recognisable
        base = t32(np.sign(rng.normal(size=(B, t.size, H, W))) * rng.uniform(.5, 3., size=(B, t.size, H, W)))
        torch.set_grad_enabled(bool(rng.integers(2)))
        lay = int(rng.integers(5)); fmt = torch.preserve_format
        if lay == 0: base = base.contiguous(memory_format=torch.channels_last)
        if lay == 1: base = base.permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
        if lay == 2: base = base.permute(1, 0, 2, 3).contiguous().permute(1, 0, 2, 3)
        prev = None
        for mode in ("train", "eval", "train"):
            x = base.clone(memory_format=fmt); xn = npy(base)
            if lay == 3: big = torch.full((B, t.size + 2, H + 1, 2 * W), 7.); big[:, 1:-1, 1:, ::2] = x; x = big[:, 1:-1, 1:, ::2]
            if torch.is_grad_enabled() and rng.integers(2): x = x.requires_grad_() * 1
            m.train(mode == "train")
            g = GeometricTensor(x, t.ft)
            y = m(g)
            mon.check(y.type == t.ft and m.out_type == t.ft, "out-type", **ctx)
            yn = npy(y.tensor)
            if mode == "eval":
                mon.close(yn, xn, "eval-identity", atol=0., **ctx)
                mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
                continue
            if inp: mon.close(npy(x), yn, "in-place", "in-place result differs from the input buffer", atol=0., **ctx)
            else: mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
            if not mon.check(np.isfinite(yn).all(), "finite", **ctx): continue
            ratio = yn / xn
            keep = ratio != 0
            if p < 1:
                mon.check(np.all(np.abs(ratio[keep] * (1 - p) - 1) < 1e-5), "scale", "survivors are not scaled by 1/(1-p)", **ctx)
            for i in range(len(sc)):
                kf = keep[:, t.sl(i)]
                if k == "field":
                    mon.check((kf == kf[:, :1]).all(), "whole-field", "channels of field %d are dropped separately" % i, **ctx)
                    d = kf[:, 0]
                else: d = kf
                n = d.size; kept = d.sum()
                mon.check(abs(kept - n * (1 - p)) <= 6 * np.sqrt(n * p * (1 - p)) + (10 if 0 < p < 1 else 0), "frequency", "field %d keeps %d of %d, expected %.1f" % (i, kept, n, n * (1 - p)), **ctx)
                # decisions vary between samples
                if 0.2 < p < 0.8 and d[0].size > 30: mon.check(all((d[b] != d[0]).any() for b in range(1, B)), "per-sample", "samples share their decisions", **ctx)
                if i and 0.2 < p < 0.8 and k == "field":
                    d0 = keep[:, t.sl(i - 1)][:, 0]
                    mon.check((d0 != d).any(), "independent", "neighbouring fields share their decisions", **ctx)
                mon.seen("field", k, sp, p, inp, repr(sc), i, int(kept))
            if 0 < p < 1: independence(mon, rng, t, keep, k, p, prev, ctx)
            prev = keep
        if p in (0., 1.): extremes(mon, rng, t, m.train(), ctx)
        mon.sample(dict(module=k, space=str(sp), types=str(sc), p=p, inplace=inp))
