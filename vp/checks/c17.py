from ..zoo import *
from .c15 import inputs, FLOOR

RULE = "distinct (module, options, space, field types, input shape) executions judged against a loop-level reference of the documented operation, plus distinct symmetry tests"
ASSUMPTIONS = ["ties between equal norms may be resolved either way", "padding at most half the window (as PyTorch requires)", "nearest up-sampling is documented as not equivariant: only its values are judged",
               "up-sampling by an integer factor or to a given size"]

SPS = [("triv",), ("flip", np.pi / 2), ("flip", np.pi / 4), ("rot", 2), ("rot", 4), ("rot", 6), ("rot", -1, 2),
       ("fliprot", 2, 0.), ("fliprot", 4, np.pi / 2), ("fliprot", 3, np.pi / 2), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES
KINDS = ["max", "avg", "normmax", "maxaa", "avgaa", "adamax", "adaavg", "up", "mask"]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in KINDS]


def osize(n, k, s, p, d, ceil):
    v = n + 2 * p - d * (k - 1) - 1
    o = (-(-v // s) if ceil else v // s) + 1
    if ceil and (o - 1) * s >= n + p: o -= 1
    return o


def windows(n, k, s, p, d, ceil):
    """for every output position the list of valid input positions and the averaging size"""
    out = []
    for o in range(osize(n, k, s, p, d, ceil)):
        st = o * s - p
        pos = [st + j * d for j in range(k)]
        size = min(st + k, n + p) - st
        out.append(([q for q in pos if 0 <= q < n], size))
    return out


def pool_ref(x, wh, ww, kind):
    y = np.zeros(x.shape[:2] + (len(wh), len(ww)))
    for i, (a, sa) in enumerate(wh):
        for j, (b, sb) in enumerate(ww):
            v = x[:, :, a][:, :, :, b]
            y[:, :, i, j] = v.max((2, 3)) if kind == "max" else v.sum((2, 3)) / (sa * sb)
    return y


def gauss(n, sigma):
    g = np.exp(-((np.arange(n) - (n - 1) / 2) ** 2) / (2 * sigma ** 2))
    g = np.outer(g, g)
    return g / g.sum()


def blur(x, f, s, p):
    B, C, H, W = x.shape; n = f.shape[0]
    xp = np.pad(x, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])))
    Ho = (xp.shape[2] - n) // s[0] + 1; Wo = (xp.shape[3] - n) // s[1] + 1
    y = np.zeros((B, C, Ho, Wo))
    for i in range(n):
        for j in range(n):
            y += f[i, j] * xp[:, :, i:i + s[0] * (Ho - 1) + 1:s[0], j:j + s[1] * (Wo - 1) + 1:s[1]]
    return y


def lin(n, o, mode, align):
    """interpolation matrix"""
    M = np.zeros((o, n))
    for i in range(o):
        if mode == "nearest":
            M[i, min(i * n // o, n - 1)] = 1
        else:
            q = (i * (n - 1) / (o - 1) if o > 1 else 0.) if align else max((i + .5) * n / o - .5, 0.)
            a = min(int(q), n - 1); b = min(a + 1, n - 1); f = q - a
            M[i, a] += 1 - f; M[i, b] += f
    return M


def two(rng, vals, sq):
    a = int(rng.choice(vals))
    return (a, a) if sq else (a, int(rng.choice(vals)))


def arg(rng, v):
    """pass a symmetric pair as an int or as a tuple"""
    return v[0] if v[0] == v[1] and rng.integers(2) else v


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]
    need = has("norm") if k == "normmax" else (has("pointwise") if k in ("max", "maxaa", "adamax", "adaavg") else None)
    syms = symmetric_elements(sp)
    for _ in range(60 if mon.tier == "quick" else 200):
        pl = pool_for(rng, sp, s, n=14, need=need, maxsize=8)
        sc = draw(rng, pl, int(rng.integers(1, 6)), maxsize=12, sp=sp, s=s)
        t = Ty(sp, s, sc)
        sq = bool(rng.integers(2))
        H, W = two(rng, list(range(3, 10)), sq)
        if rng.integers(12) == 0: H, W = two(rng, [1, 2, 12, 17, 34], sq)
        ctx = {"module": k, "space": sp, "types": sc, "hw": (H, W)}
        ks = two(rng, [1, 2, 2, 3, 3, 4], sq); st = two(rng, [1, 2, 2, 3], sq); pd = tuple(int(rng.integers(0, q // 2 + 1)) for q in ks)
        if sq: pd = (pd[0],) * 2
        dl = two(rng, [1, 1, 2], sq) if k in ("max", "normmax") else (1, 1)
        ceil = bool(rng.integers(3) == 0)
        if any(n + 2 * p < d * (q - 1) + 1 for n, p, d, q in zip((H, W), pd, dl, ks)): continue
        # every window must see at least one pixel (the maximum of nothing is not defined)
        if k in ("max", "normmax", "maxaa") and any(not q for n, a, b, c, d in zip((H, W), ks, st, pd, dl) for v in (1, b, a) for q, _ in windows(n, a, v, c, d, ceil)): continue
        FLOOR[:] = [1., True]
        x, lay = inputs(rng, (int(rng.integers(1, 4)) if H * W > 60 or rng.integers(12) else int(rng.choice([17, 33, 65, 130])), t.size, H, W)); xn = npy(x)
        ctx["layout"] = lay
        if k in ("max", "avg", "normmax"):
            kw = dict(kernel_size=arg(rng, ks), padding=arg(rng, pd), ceil_mode=ceil)
            if rng.integers(4) == 0: st = ks
            else: kw["stride"] = arg(rng, st)
            if k != "avg": kw["dilation"] = arg(rng, dl)
            ctx["options"] = kw
            m = {"max": enn.PointwiseMaxPool, "avg": enn.PointwiseAvgPool, "normmax": enn.NormMaxPool}[k](t.ft, **kw)
            wh, ww = (windows(n, a, b, c, d, ceil) for n, a, b, c, d in zip((H, W), ks, st, pd, dl))
            tiles = all((n + 2 * c - d * (a - 1) - 1) % b == 0 for n, a, b, c, d in zip((H, W), ks, st, pd, dl)) and sq
            ref = None if k == "normmax" else pool_ref(xn, wh, ww, k)
        elif k == "maxaa":
            sg = float(rng.choice([0.6, 0.6, 0.4, 1.0]))
            kw = dict(kernel_size=arg(rng, ks), padding=arg(rng, pd), stride=arg(rng, st), sigma=sg)
            if rng.integers(4) == 0: kw.pop("stride"); st = ks
            ctx["options"] = kw
            m = enn.PointwiseMaxPoolAntialiased(t.ft, **kw)
            n = 2 * int(round(4 * sg)) + 1
            z = pool_ref(xn, *(windows(q, a, 1, c, 1, False) for q, a, c in zip((H, W), ks, pd)), "max")
            ref = blur(z, gauss(n, sg), st, (n // 2,) * 2)
            tiles = sq and (z.shape[2] - 1) % st[0] == 0
        elif k == "avgaa":
            sg = float(rng.choice([0.6, 0.4, 1.0]))
            n = 2 * int(round(3 * sg)) + 1
            kw = dict(sigma=sg, stride=arg(rng, st)); p = (n // 2,) * 2
            if rng.integers(5) == 0: kw["stride"] = None; st = (n, n)
            if rng.integers(2):
                p = two(rng, [1, 2, 3], sq); kw["padding"] = arg(rng, p)
            if min(H + 2 * p[0], W + 2 * p[1]) < n: continue
            ctx["options"] = kw
            m = enn.PointwiseAvgPoolAntialiased(t.ft, **kw)
            ref = blur(xn, gauss(n, sg), st, p)
            tiles = sq and (H + 2 * p[0] - n) % st[0] == 0
        elif k in ("adamax", "adaavg"):
            o = two(rng, [1, 1, 2, 3, 4, 5], sq)
            ctx["options"] = o
            m = (enn.PointwiseAdaptiveMaxPool if k == "adamax" else enn.PointwiseAdaptiveAvgPool)(t.ft, arg(rng, o))
            bins = lambda n, q: [(list(range(i * n // q, -(-(i + 1) * n // q))),) * 2 for i in range(q)]
            wh, ww = ([(a, len(a)) for a, _ in bins(n, q)] for n, q in zip((H, W), o))
            ref = pool_ref(xn, wh, ww, "max" if k == "adamax" else "avg"); tiles = sq
        elif k == "up":
            mode = str(rng.choice(["bilinear", "bilinear", "nearest"])); al = bool(rng.integers(2))
            if rng.integers(2):
                f = int(rng.choice([1, 2, 3, 4])); o = (H * f, W * f); kw = dict(scale_factor=f)
            else:
                o = two(rng, [3, 6, 7, 10, 15], sq); kw = dict(size=arg(rng, o))
            if mode != "bilinear" or rng.integers(2): kw["mode"] = mode
            if al: kw["align_corners"] = True
            if mode == "nearest" and "size" in kw: al = False
            ctx["options"] = kw
            m = enn.R2Upsampling(t.ft, **kw)
            ref = np.einsum("ih,bchw,jw->bcij", lin(H, o[0], mode, al), xn, lin(W, o[1], mode, al))
            tiles = sq and mode == "bilinear"
        else:
            S = int(rng.integers(1, 12)); mg = float(rng.choice([0., 0., 10., 37.5]))
            x, lay = inputs(rng, (2, t.size, S, S)); xn = npy(x); sq = tiles = True
            ctx.update(options=(S, mg), hw=(S, S))
            m = enn.MaskModule(t.ft, S, margin=mg) if mg else enn.MaskModule(t.ft, S)
            ref = xn * mask_of(mon, m, t, S, mg, ctx)
        live(rng, m); x = ask_grad(rng, x)
        y = m(GeometricTensor(x, t.ft))
        mon.check(y.type == t.ft and m.out_type == t.ft, "out-type", **ctx)
        mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
        yn = npy(y.tensor)
        if ref is not None:
            mon.close(yn, ref, "function", atol=2e-5 * (FLOOR[0] + np.abs(xn).max()), **ctx)
        else: norm_pool(mon, yn, xn, t, wh, ww, ctx)
        mon.seen("exec", k, sp, repr(sc), repr(ctx["options"]), ctx["hw"])
        # symmetries: distinct norms / values, so that arg max is unique
        h, w = xn.shape[2:]
        v = rng.normal(size=(2, t.size, h, w)) * FLOOR[0]
        f = lambda z: npy(m(GeometricTensor(t32(z), t.ft)).tensor)
        fv = f(v); tol = 5e-5 * (FLOOR[0] + np.abs(fv).max(initial=0.))
        for e in sample_elements(space_gspec(sp), rng, 3):
            mon.close(f(t.channel(v, e)), t.channel(fv, e), "channel-equivariance", atol=tol, e=e, **ctx)
            mon.seen("channel", k, sp, str(e), repr(sc))
        if tiles and h == w and len(syms):
            for e in [syms[int(i)] for i in rng.permutation(len(syms))[:3]]:
                mon.close(f(t.act(v, e)), t.act(fv, e), "grid-equivariance", atol=tol, e=e, **ctx)
                mon.seen("grid", k, sp, str(e), repr(sc), repr(ctx["options"]))
        mon.sample(dict(module=k, space=str(sp), types=str(sc), options=str(ctx["options"])))
    if k == "maxaa" and sp == ("rot", 4):
        ceil_probe(mon, sp, s)


def ceil_probe(mon, sp, s):
    t = Ty(sp, s, [("regular",)])
    m = enn.PointwiseMaxPoolAntialiased(t.ft, kernel_size=3, stride=2, ceil_mode=True)
    y = m(GeometricTensor(torch.randn(1, 4, 8, 8), t.ft))
    mon.check(tuple(y.shape[2:]) == (4, 4), "antialiased-ceil_mode", "PointwiseMaxPoolAntialiased(ceil_mode=True) rounds the output size down: %s instead of (4, 4)" % (tuple(y.shape[2:]),))


def mask_of(mon, m, t, S, mg, ctx):
    """the mask observed through the module; judged against its documentation"""
    one = npy(m(GeometricTensor(torch.ones(1, t.size, S, S), t.ft)).tensor)[0]
    mon.check((one == one[:1]).all(), "mask", "mask differs between channels", **ctx)
    mk = one[0]; c = (S - 1) / 2
    yy, xx = np.mgrid[:S, :S]; r = np.sqrt((yy - c) ** 2 + (xx - c) ** 2)
    inside = r < c * (1 - mg / 100) - 1e-6; outside = r > c * (1 - mg / 100) + 1e-6
    mon.check((mk[inside] == 1).all(), "mask", "mask is not 1 inside the disk", **ctx)
    mon.check((mk[outside] < 1).all() and (mk >= 0).all(), "mask", "mask is not below 1 outside the disk", **ctx)
    o = np.argsort(r.reshape(-1), kind="stable"); rs = r.reshape(-1)[o]; ms = mk.reshape(-1)[o]
    mon.check((np.diff(ms)[np.diff(rs) > 1e-9] <= 1e-7).all(), "mask", "mask does not decrease with the radius", **ctx)
    mon.check(((mk[r > c + 5] < 1e-2)).all(), "mask", "mask does not vanish far outside", **ctx)
    return mk


def norm_pool(mon, y, x, t, wh, ww, ctx):
    if not mon.check(y.shape == x.shape[:2] + (len(wh), len(ww)) and np.isfinite(y).all(), "shape", "%s" % (y.shape,), **ctx): return
    for i in range(len(t.specs)):
        v = x[:, t.sl(i)]; n = np.sqrt((v ** 2).sum(1)); o = y[:, t.sl(i)]
        bad = None
        for a, (ra, _) in enumerate(wh):
            for b, (rb, _) in enumerate(ww):
                cand = v[:, :, ra][:, :, :, rb].reshape(v.shape[0], v.shape[1], -1)
                cn = n[:, ra][:, :, rb].reshape(v.shape[0], -1)
                good = (np.abs(cand - o[:, :, a, b][:, :, None]).max(1) == 0) & (cn >= cn.max(1, keepdims=True) * (1 - 1e-5))
                if not good.any(1).all(): bad = (i, a, b)
        mon.check(bad is None, "function", "output field is not the field of largest norm in its window (field, row, col) = %s" % (bad,), **ctx)
