from ..lay import *

RULE = "distinct (layer kind, space, field types, configuration, mode, grid symmetry) forward executions compared with the transformed execution and with a plain tap-by-tap convolution"
ASSUMPTIONS = ["float32 layers, tolerance 2e-4 relative to the largest absolute sum over taps", "equivariance is judged for square inputs whose windows tile the padded grid symmetrically"]


def units(tier, rng):
    us = []
    for kind in ("conv", "convT", "diffop"):
        for sp in LAYER_SPACES:
            us.append({"kind": kind, "sp": sp, "n": {"conv": 25, "convT": 18, "diffop": 18}[kind] * (3 if tier == "quick" else 24)})
    return us


def config(rng, kind, sp):
    c = rand_conv_config(rng, kind)
    b = rand_basis_config(rng, kind, c["kernel_size"], c["dilation"])
    if kind == "diffop":
        r = int(rng.integers(4))
        k = c.pop("kernel_size")
        k = max(3, k) | 1 if rng.integers(3) else max(2, k)
        if r == 0: c["maximum_order"] = int(rng.integers(0, 4))
        elif r == 1: c.update(maximum_order=int(rng.integers(0, 3)), accuracy=int(rng.integers(1, 4)))
        elif r == 2: c.update(kernel_size=k, maximum_order=int(rng.integers(0, min(k, 5))))
        else: c.update(kernel_size=k)
        if rng.integers(4) == 0: c["maximum_power"] = int(rng.integers(0, 3))
        if rng.integers(5) == 0: c["maximum_offset"] = int(rng.integers(0, 3))
        if sp[0] in ("rot", "triv") and rng.integers(4) == 0: c["angle_offset"] = float(rng.uniform(0, TAU))
    if kind == "convT" and rng.integers(3) == 0 and max(c["stride"], c["dilation"]) > 1:
        c["output_padding"] = int(rng.integers(1, max(c["stride"], c["dilation"])))
    return c, b


def tuple_padding(rng, kind, c):
    """paddings may be given per axis"""
    p = c["padding"]
    r = int(rng.integers(6))
    if r == 0: c["padding"] = (p, p)
    if r == 1 and kind != "convT": c["padding"] = (p, p + 1)


def types(rng, sp, s):
    groups = int(rng.choice([1, 1, 1, 2, 3]))
    a = rand_type(rng, sp, s, maxsize=14 // groups, nmax=4 if groups == 1 else 2, repsize=8 if groups == 1 else 4)
    b = rand_type(rng, sp, s, maxsize=14 // groups, nmax=4 if groups == 1 else 2, repsize=8 if groups == 1 else 4)
    if rng.integers(3) == 0: b = (b + a)[:4] if groups == 1 else b
    if groups == 1 and rng.integers(12) == 0:   # large fields, or many of them
        a = rand_type(rng, sp, s, maxsize=20, nmax=2, repsize=18)
        if rng.integers(2): a, b = b, a
    elif rng.integers(25) == 0: a = (a * 20)[:18]
    return groups, a * groups, b * groups


def build(mon, rng, kind, sp, s, tries=30):
    """a random layer the library accepts (bands without any kernel raise ValueError as documented)"""
    for _ in range(tries):
        groups, a, b = types(rng, sp, s)
        tin, tout = Ty(sp, s, a), Ty(sp, s, b)
        c, bc = config(rng, kind, sp)
        c["groups"] = groups
        tuple_padding(rng, kind, c)
        ctx = dict(kind=kind, space=sp, tin=a, tout=b, cfg=c, basis=bc)
        try:
            layer = make_layer(kind, tin, tout, c, bc)
        except ValueError as e:
            if "basis for the steerable filter is empty" in str(e):
                mon.seen("empty", kind, sp)
                continue
            raise
        if layer.weights.numel() == 0:
            mon.seen("empty", kind, sp)
            continue
        return tin, tout, c, bc, layer, ctx
    return None


def hsize(rng, c, kind, k, square=True):
    """input size such that the windows tile symmetrically"""
    s, d, p = c["stride"], c["dilation"], pair(c["padding"])[0]
    lo = max(d * (k - 1) + 1 - 2 * p, 2, pair(c["padding"])[1] + 1)
    if kind == "convT":
        h = int(rng.integers(2, 6))
        while (h - 1) * s - 2 * p + d * (k - 1) + 1 <= 0: h += 1
        return h
    h = lo
    while (h + 2 * p - d * (k - 1) - 1) % s: h += 1
    return h + s * int(rng.integers(0, 3))


def smallest(c, kind, k):
    """least height and width of an input"""
    s, d, p = c["stride"], c["dilation"], pair(c["padding"])
    if kind == "convT":
        o = pair(c.get("output_padding", 0))
        return tuple(next(h for h in range(1, 99) if (h - 1) * s - 2 * q + d * (k - 1) + 1 > 0) for q in p)
    return tuple(max(1, d * (k - 1) + 1 - 2 * q, 1 if c.get("padding_mode", "zeros") in ("zeros", "replicate") else q + 1) for q in p)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; kind = u["kind"]
    for _ in range(u["n"]):
        r = build(mon, rng, kind, sp, s)
        if r is None: continue
        judge(mon, rng, kind, sp, r)


def plain(layer, kind, c, x, w, b):
    if kind == "convT":
        return ref_conv_t(x, w, b, c["stride"], c["padding"], c.get("output_padding", 0), c["dilation"], c["groups"])
    return ref_conv(x, w, b, c["stride"], c["padding"], c["dilation"], c["groups"], c.get("padding_mode", "zeros"))


def judge(mon, rng, kind, sp, r):
    tin, tout, c, bc, layer, ctx = r
    randomize(layer, rng)
    k = layer.kernel_size
    n = hsize(rng, c, kind, k)
    x = rng.normal(size=(int(rng.choice([1, 2, 2, 3])), tin.size, n, n))
    if rng.integers(8) == 0: x = np.round(x) if rng.integers(2) else x * (rng.random(x.shape) < .2)
    if rng.integers(4) == 0: x *= 10. ** int(rng.integers(-3, 4))
    training = bool(rng.integers(2))
    if training: layer.train()
    else: layer.eval()
    w, b = layer.expand_parameters()
    w = npy(w); b = None if b is None else npy(b)
    mon.check(w.shape == ((tin.size, tout.size // c["groups"], k, k) if kind == "convT" else (tout.size, tin.size // c["groups"], k, k)), "filter-shape", "%s" % (w.shape,), **ctx)
    mon.check(c["bias"] or b is None, "bias-absent", **ctx)
    scale = np.abs(plain(layer, kind, c, np.abs(x), np.abs(w), None if b is None else np.abs(b))).max() + 1e-6 * np.abs(x).max()
    tol = 2e-5 * scale
    torch.set_grad_enabled(bool(rng.integers(3)))
    if rng.integers(6) == 0: layer.requires_grad_(False)
    f = lambda z: layer(GeometricTensor(ask_grad(rng, mem(rng, t32(z))), tin.ft))
    x = npy(t32(x)); B = len(x)
    yt = f(x)
    mon.check(yt.type == tout.ft, "out-type", **ctx)
    y = npy(yt.tensor)
    mon.close(y, plain(layer, kind, c, x, w, b), "plain-conv", "output is not the convolution with the expanded filter", atol=tol, n=n, training=training, **ctx)
    # non square input, plain definition only
    h2 = smallest(c, kind, k); h2 = tuple(h + int(rng.integers(0, 4)) for h in h2)
    x2 = rng.normal(size=(int(rng.choice([1, 1, 3])), tin.size) + h2)
    x2 = npy(t32(x2))
    sc2 = np.abs(plain(layer, kind, c, np.abs(x2), np.abs(w), None if b is None else np.abs(b))).max() + 1e-6
    mon.close(npy(f(x2).tensor), plain(layer, kind, c, x2, w, b), "plain-conv", "non-square input", atol=2e-5 * sc2, n=h2, training=training, **ctx)
    if not c.get("output_padding", 0):
        for e in symmetric_elements(sp):
            M = space_planar(sp, e)
            if np.allclose(M, np.eye(2)) and e == s_identity(tin.gs): continue
            if len(set(pair(c["padding"]))) > 1 and (c["stride"] > 1 or abs(M[0, 0]) < 0.5): continue
            mon.seen("equivariance", kind, sp, str(tin.specs), str(tout.specs), str(c), str(bc), str(e), training)
            z = npy(f(tin.act(x, e)).tensor)
            if not mon.close(z, tout.act(y, e), "equivariance", "L(g.x) != g.L(x)", atol=3 * tol, e=e, n=n, training=training, **ctx): return
    # translations on the lattice
    if kind != "convT":
        st = c["stride"]
        if c.get("padding_mode") == "circular":
            if n % st == 0 and len(set(pair(c["padding"]))) == 1:
                dy, dx = [int(v) for v in rng.integers(0, n // st, size=2)]
                z = npy(f(np.roll(x, (dy * st, dx * st), (2, 3))).tensor)
                if y.shape[-1] * st == n:
                    mon.seen("translation", kind, sp, str(c))
                    mon.close(z, np.roll(y, (dy, dx), (2, 3)), "translation", atol=3 * tol, **ctx)
        elif pair(c["padding"]) == (0, 0):
            big = np.concatenate([rng.normal(size=(B, tin.size, st, n)), x], 2)
            mon.seen("translation", kind, sp, str(c))
            mon.close(npy(f(big).tensor)[:, :, 1:], y, "translation", atol=3 * tol, **ctx)
    elif pair(c["padding"]) == (0, 0) and not c.get("output_padding", 0):
        big = np.concatenate([np.zeros((B, tin.size, 1, n)), x], 2)
        bb = 0 if b is None else b[None, :, None, None]
        z = npy(f(big).tensor) - bb
        mon.seen("translation", kind, sp, str(c))
        mon.close(z[:, :, c["stride"]:], y - bb, "translation", atol=3 * tol, **ctx)
    # the bias is itself invariant
    if b is not None:
        for e in sample_elements(tin.gs, rng, 6):
            mon.close(tout.rho(e) @ b, b, "bias-invariant", atol=1e-5 * (1 + np.abs(b).max()), e=e, **ctx)
    mon.sample({k_: str(v) for k_, v in ctx.items()})


def s_identity(gs):
    return {"C": 0, "D": (0, 0), "SO2": 0., "O2": (0, 0.)}[gs[0]]
