from ..kern import *

RULE = "distinct (space, input rep, output rep, radial profile, limits, basis element) kernels judged against the equivariance constraint and their own attributes"
ASSUMPTIONS = ["the constraint is judged at random points, the origin, points next to it and on the axes, for all (finite) or sampled (continuous) elements, at 1e-7"]

AX = [0., np.pi / 2, np.pi / 4, 0.3, 2.0]


def spaces(tier, rng):
    out = [("triv",)] + [("flip", a) for a in AX]
    ns = (2, 3, 4, 5, 6, 7, 8, 12) if tier == "quick" else range(2, 25)
    out += [("rot", n) for n in ns] + [("rot", -1, 3), ("rot", -1, 5)]
    for n in ((2, 3, 4, 5, 6, 8) if tier == "quick" else range(2, 17)):
        for a in AX[:3] + [float(rng.uniform(0, TAU))]:
            out.append(("fliprot", n, a))
    for a in AX: out.append(("fliprot", -1, 3, a))
    return out


def units(tier, rng):
    us = []
    for s in spaces(tier, rng):
        for _ in range(2 if tier == "quick" else 6): us.append({"sp": s})
    return us


def points(rng, n=14):
    P = rng.normal(size=(2, n)) * rng.choice([0.3, 1.5, 4.0], size=(1, n))
    ext = np.array([[0., 1., 0., -1., 0., 2., 1e-12, 1e-7, -3., 0.5], [0., 0., 1., 0., -1., 2., 0., 1e-7, 3., -0.5]])
    return np.concatenate([P, ext], 1)


PROFILES = [([0.], 0.6), ([1.], 0.5), ([0., 1., 2.], [0.3, 0.5, 0.7]), ([0., 1.3], [0.005, 0.6]), ([2.5, 0.5], [0.4, 1.2]), ([1., 1.], [0.4, 0.9])]


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); gs = space_gspec(sp); rng = mon.rng; g = s.fibergroup
    mf = min(3, gs[1]) if gs[0] in ("SO2", "O2") else None
    irr = [("irrep", i) for i in irrep_ids(gs, maxf=mf)]
    pairs = [(a, b) for a in irr for b in irr]
    lim = 30 if mon.tier == "quick" else 120
    if len(pairs) > lim: pairs = [pairs[int(i)] for i in rng.choice(len(pairs), lim, replace=False)]
    pool = rep_specs(gs, rng, 8, maxsize=10, maxf=3)
    pairs += [(pool[2 * i], pool[2 * i + 1]) for i in range(4)] + [(pool[0], pool[0]), (irr[-1], pool[1]), (pool[3], irr[-1])]
    for n, (a, b) in enumerate(pairs):
        one(mon, sp, s, gs, g, a, b, n)


def one(mon, sp, s, gs, g, a, b, n):
    rng = mon.rng
    rin, rout = build_rep(g, gs, a), build_rep(g, gs, b)
    radii, sigma = PROFILES[int(rng.integers(len(PROFILES)))]
    if continuous(sp): lims = (None, None)
    else:
        lims = [(0, None), (1, None), (3, None), (5, None), (None, 0), (None, 1), (4, 1), (gs[1] + 1, None)][int(rng.integers(8))]
    via = space_basis if rng.integers(2) else kernel_basis
    basis = via(sp, s, rin, rout, list(radii), sigma if isinstance(sigma, float) else list(sigma), *lims)
    if basis is None:
        mon.seen("empty", sp, a, b, lims); return
    ctx = dict(space=sp, rin=a, rout=b, radii=radii, sigma=sigma, limits=lims)
    P = points(rng)
    x0 = P.copy()
    v = basis.sample(P)
    mon.check(np.array_equal(P, x0), "points-modified", **ctx)
    if not mon.check(v.shape == (rout.size, rin.size, basis.dim, P.shape[1]) and basis.dim == len(basis) and tuple(basis.shape) == (rout.size, rin.size),
                     "shape", "%s dim %s shape %s" % (v.shape, basis.dim, basis.shape), **ctx): return
    mon.check(np.isfinite(v).all(), "finite", **ctx)
    # --- steerability
    els = sample_elements(gs, rng, 12)
    for e in els:
        M = space_planar(sp, e)
        w = basis.sample(M @ P)
        want = np.einsum("oO,OIbp,Ii->oibp", ref_matrix(rout, gs, e), v, np.linalg.inv(ref_matrix(rin, gs, e)))
        if not mon.close(w, want, "steerable", "K(gx) != rho_out(g) K(x) rho_in(g)^-1", atol=2e-7, e=e, **ctx): return
    # --- sampling variants
    sampling(mon, basis, P, v, ctx)
    factors(mon, basis, P, v, radii, sigma, ctx)
    if a[0] == b[0] == "irrep": by_id(mon, sp, gs, g, a[1], b[1], lims, basis, ctx)
    # --- attributes
    attributes(mon, basis, rin, rout, gs, radii, sigma, lims, v, P, ctx)
    for i in range(basis.dim): mon.seen("kernel", sp, a, b, radii, lims, i)
    mon.sample({k: str(x) for k, x in ctx.items()} | {"dim": basis.dim})


def sampling(mon, basis, P, v, ctx):
    rng = mon.rng
    mon.check(np.array_equal(basis.sample(P), v), "sample-repeat", **ctx)
    out = np.full(v.shape, np.nan)
    r = basis.sample(P, out=out)
    mon.close(r, v, "sample-out", "returned array", atol=1e-12, **ctx)
    mon.close(out, v, "sample-out", "buffer", atol=1e-12, **ctx)
    big = np.full((v.shape[0] + 1, v.shape[1] + 2, v.shape[2] + 1, v.shape[3] + 1), 7.)
    view = big[1:, 2:, :-1, 1:]
    r = basis.sample(P, out=view)
    mon.close(r, v, "sample-out-view", "returned array", atol=1e-12, **ctx)
    mon.close(view, v, "sample-out-view", "buffer that is a view of a larger array", atol=1e-12, **ctx)
    mon.check((big[0] == 7.).all() and (big[:, :2] == 7.).all() and (big[:, :, -1] == 7.).all() and (big[..., 0] == 7.).all(), "sample-out-view", "wrote outside", **ctx)
    for j in rng.choice(P.shape[1], 3, replace=False):
        mon.close(basis.sample(P[:, j:j + 1])[..., 0], v[..., j], "sample-pointwise", atol=1e-12, **ctx)
    mask = rng.random(basis.dim) < 0.5
    for m in (mask, np.ones(basis.dim, bool), np.zeros(basis.dim, bool)):
        mon.close(basis.sample_masked(P, m), v[:, :, m], "sample-masked", atol=1e-12, **ctx)
        buf = np.full(v[:, :, m].shape, np.nan)
        r = basis.sample_masked(P, m, out=buf)
        mon.close(buf, v[:, :, m], "sample-masked", "buffer", atol=1e-12, **ctx)
        mon.close(r, v[:, :, m], "sample-masked", atol=1e-12, **ctx)


def factors(mon, basis, P, v, radii, sigma, ctx):
    """the radial and the angular factor, sampled on their own"""
    if not (hasattr(basis, "radial") and hasattr(basis, "angular")): return
    r = np.sqrt((P ** 2).sum(0)).reshape(1, -1); th = np.arctan2(P[1], P[0]).reshape(1, -1); th[r < 1e-9] = np.nan
    r0, th0 = r.copy(), th.copy()
    sig = np.array([sigma] * len(radii) if isinstance(sigma, float) else list(sigma))
    G = np.exp(-.5 * (r - np.array(radii)[:, None]) ** 2 / sig[:, None] ** 2)
    R, A = basis.radial.sample(r), basis.angular.sample(th)
    mon.close(R, G[None, None], "radial", "radial factor is not the Gaussian ring", atol=1e-10, **ctx)
    mon.close(np.einsum("ap,oibp->oiabp", G, A).reshape(v.shape), v, "factors", "kernel is not the product of its radial and angular factors", atol=1e-10, **ctx)
    for f, x, w in ((basis.radial, r, R), (basis.angular, th, A)):
        for shape, cut in ((w.shape, np.s_[:]), (tuple(n + 1 for n in w.shape), np.s_[1:, :-1, 1:, :-1])):
            buf = np.full(shape, 5.); q = f.sample(x, out=buf[cut])
            mon.close(buf[cut], w, "factor-out", "buffer", atol=1e-12, **ctx); mon.close(q, w, "factor-out", "returned", atol=1e-12, **ctx)
        for i, at in enumerate(f): mon.check(at["idx"] == i and dict(f[i]) == dict(at), "factor-attr", "%s %s" % (at, f[i]), **ctx)
        mon.check(f.dim == len(f) == w.shape[2] and tuple(f.shape) == w.shape[:2], "factor-shape", **ctx)
        m = mon.rng.random(f.dim) < .5
        mon.close(f.sample_masked(x, m), w[:, :, m], "factor-masked", atol=1e-12, **ctx)
    mon.check(np.array_equal(r, r0) and np.array_equal(th, th0, equal_nan=True), "points-modified", **ctx)


def by_id(mon, sp, gs, g, a, b, lims, basis, ctx):
    """solutions for irreps given as objects, by name or by their frequencies are the same ones"""
    from e2cnn.kernels import irreps_basis as I
    if not hasattr(basis, "angular"): return
    kw = {} if continuous(sp) else dict(max_frequency=lims[0], max_offset=lims[1])
    cls = {"flip": "R2FlipsSolution", "rot": "R2ContinuousRotationsSolution" if continuous(sp) else "R2DiscreteRotationsSolution", "triv": "R2DiscreteRotationsSolution",
           "fliprot": "R2FlipsContinuousRotationsSolution" if continuous(sp) else "R2FlipsDiscreteRotationsSolution"}[sp[0]]
    cls = getattr(I, cls, None)
    if cls is None: return
    if sp[0] in ("flip", "fliprot"): kw["axis"] = float(space_axis(sp))
    th = mon.rng.uniform(-4, 4, size=(1, 9)); th[0, 3] = np.nan
    want = basis.angular.sample(th)
    short = lambda i: i[0] if len(i) == 1 else tuple(i)
    ways = [(g.irrep(*a), g.irrep(*b)), (irrep_name(a), irrep_name(b)), (short(a), short(b)), (g.irrep(*a), irrep_name(b)), (short(a), g.irrep(*b))]
    objs = []
    for n, (p, q) in enumerate(ways):
        gg = gs[1] if n == 2 and not continuous(sp) else g
        with mon.guard("irreps-basis", way=n, **ctx):
            o = cls(gg, p, q, **kw)
            objs.append(o)
            mon.close(o.sample(th), want, "by-id", "solution for %s" % ((str(p), str(q)),), atol=1e-10, **ctx)
            mon.check(o.in_irrep is g.irrep(*a) and o.out_irrep is g.irrep(*b), "by-id", "irreps", **ctx)
    mon.check(all(o == objs[0] and hash(o) == hash(objs[0]) for o in objs), "by-id", "solutions for the same irreps differ", **ctx)


def attributes(mon, basis, rin, rout, gs, radii, sigma, lims, v, P, ctx):
    A = [dict(x) for x in basis]
    if not mon.check(len(A) == basis.dim, "attr-count", **ctx): return
    radii = list(radii); sig = [sigma] * len(radii) if isinstance(sigma, float) else list(sigma)
    ipos = np.cumsum([0] + [irrep_dim(gs, id_of_name(n)) for n in rin.irreps])
    opos = np.cumsum([0] + [irrep_dim(gs, id_of_name(n)) for n in rout.irreps])
    # strip the declared bases: kernel between direct sums of irreps
    w = np.einsum("oO,OIbp,Ii->oibp", np.linalg.inv(rout.change_of_basis), v, rin.change_of_basis)
    L = 64
    th = TAU * np.arange(L) / L
    rad = np.sqrt((P ** 2).sum(0))
    circ = {}
    for i, a in enumerate(A):
        b = basis[i]
        mon.check(set(a) == set(b) and all(a[k] == b[k] for k in a), "attr-getitem", "iter %r getitem %r" % (a, b), **ctx)
        mon.check(a["idx"] == i, "attr-idx", "%s" % a, **ctx)
        ii, oo = a["in_irrep_idx"], a["out_irrep_idx"]
        if not mon.check(0 <= ii < len(rin.irreps) and 0 <= oo < len(rout.irreps), "attr-irrep", "%s" % a, **ctx): continue
        mon.check(rin.irreps[ii] == a["in_irrep"] and rout.irreps[oo] == a["out_irrep"], "attr-irrep", "%s" % a, **ctx)
        blk = w[:, :, i].copy()
        mon.check(tuple(a["shape"]) == (opos[oo + 1] - opos[oo], ipos[ii + 1] - ipos[ii]), "attr-shape", "%s" % a, **ctx)
        inner = blk[opos[oo]:opos[oo + 1], ipos[ii]:ipos[ii + 1]].copy()
        blk[opos[oo]:opos[oo + 1], ipos[ii]:ipos[ii + 1]] = 0
        mon.close(blk, np.zeros_like(blk), "attr-block", "kernel leaves the declared irrep block", atol=1e-8, attr=a, **ctx)
        # radial profile
        r0, s0 = a["radius"], a["sigma"]
        mon.check(any(abs(r0 - r) < 1e-12 and abs(s0 - q) < 1e-12 for r, q in zip(radii, sig)), "attr-radius", "%s" % a, **ctx)
        key = (float(r0), float(s0))
        R0 = max(r0, 0.7 * s0)
        pts = R0 * np.stack([np.cos(th), np.sin(th)])
        if key not in circ:
            circ[key] = np.einsum("oO,OIbp,Ii->oibp", np.linalg.inv(rout.change_of_basis), basis.sample(pts), rin.change_of_basis)
        c = circ[key][opos[oo]:opos[oo + 1], ipos[ii]:ipos[ii + 1], i]
        spec = np.abs(np.fft.fft(c, axis=-1)).max((0, 1)) / L
        f = int(abs(a["frequency"]))
        mon.check(f < L // 2, "attr-frequency", "%s" % a, **ctx)
        rest = spec.copy(); rest[f] = 0; rest[-f] = 0
        if not mon.check(spec[f] > 1e-3 and rest.max() < 1e-9 * max(1, spec[f]), "attr-frequency", "declared %s spectrum %s" % (a["frequency"], np.round(spec[:L // 2], 4)), **ctx): continue
        # K(r,theta) = profile(r) * angular(theta)
        prof = np.exp(-0.5 * (rad - r0) ** 2 / s0 ** 2)
        amp = c * np.exp(0.5 * (R0 - r0) ** 2 / s0 ** 2)
        ang = np.arctan2(P[1], P[0])
        co = np.fft.fft(amp, axis=-1) / L
        if f == 0: rec = np.real(co[..., :1]) * np.ones_like(ang)
        else: rec = 2 * np.real(co[..., f:f + 1] * np.exp(1j * f * ang))
        want = rec * prof
        if f > 0: want[..., rad < 1e-9] = 0
        mon.close(inner, want, "attr-profile", "radial profile / origin", atol=1e-7, attr=a, **ctx)
        mon.check(0.1 < np.abs(amp).max() < 10, "scale", "%g" % np.abs(amp).max(), attr=a, **ctx)
        if lims[0] is not None: mon.check(f <= lims[0], "attr-limit", "%s" % a, **ctx)
        if lims[1] is not None and "offset" in a: mon.check(abs(a["offset"]) <= lims[1], "attr-limit", "%s" % a, **ctx)
