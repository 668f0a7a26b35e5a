from ..kern import *
from .c08 import spaces as spaces8

RULE = "distinct (space, input rep, output rep, frequency limit, profile) bases whose rank was compared with the character formula for the space of all equivariant kernels"
ASSUMPTIONS = ["rank by SVD with relative threshold 1e-6 of kernels sampled on circles (angular part at 64 angles), dimension by the exact character formula"]


def units(tier, rng):
    us = []
    for s in spaces8(tier, rng):
        us += [{"sp": s}] * (2 if tier == "quick" else 6)
    return [dict(u) for u in us]


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); gs = space_gspec(sp); rng = mon.rng; g = s.fibergroup
    mf = min(4, gs[1]) if gs[0] in ("SO2", "O2") else None
    irr = [("irrep", i) for i in irrep_ids(gs, maxf=mf)]
    pairs = [(a, b) for a in irr for b in irr]
    lim = 36 if mon.tier == "quick" else 200
    if len(pairs) > lim: pairs = [pairs[int(i)] for i in rng.choice(len(pairs), lim, replace=False)]
    pool = rep_specs(gs, rng, 8, maxsize=8, maxf=3)
    pairs += [(pool[2 * i], pool[2 * i + 1]) for i in range(4)] + [(pool[0], pool[0])]
    for a, b in pairs:
        full(mon, sp, s, gs, g, a, b)
        profiles(mon, sp, s, gs, g, a, b)


def circle(basis, r, L=64):
    th = TAU * np.arange(L) / L
    v = basis.sample(r * np.stack([np.cos(th), np.sin(th)]))
    return np.moveaxis(v, 2, -1).reshape(-1, basis.dim)


def rank(m):
    if m.size == 0: return 0
    sv = np.linalg.svd(m, compute_uv=False)
    return int((sv > 1e-6 * max(sv[0], 1e-300)).sum())


def full(mon, sp, s, gs, g, a, b):
    rng = mon.rng
    rin, rout = build_rep(g, gs, a), build_rep(g, gs, b)
    tin = lambda e: ref_matrix(rin, gs, e)
    tout = lambda e: ref_matrix(rout, gs, e)
    maxfs = [None] if continuous(sp) else sorted(set([0, 1, 2, int(rng.integers(3, 10)), gs[1]]))
    prev = None
    for mf in maxfs:
        top = 24 if mf is None else mf
        dims = hom_dims(sp, tin, tout, top)
        mon.check(np.allclose(dims, np.round(dims), atol=1e-6), "oracle", "%s" % dims)
        dims = np.round(dims).astype(int)
        want = int(dims.sum())
        ctx = dict(space=sp, rin=a, rout=b, max_frequency=mf)
        via = space_basis if rng.integers(2) else kernel_basis
        basis = via(sp, s, rin, rout, [1.], 1., mf, None)
        got = 0 if basis is None else basis.dim
        mon.seen("basis", sp, a, b, mf)
        if not mon.check(got == want, "complete", "library offers %d kernels, %d equivariant kernels exist" % (got, want), **ctx): continue
        if basis is None: continue
        V = circle(basis, 1.)
        mon.check(rank(V) == want, "independent", "rank %d of %d" % (rank(V), want), **ctx)
        # per frequency
        fr = np.array([abs(int(x["frequency"])) for x in basis])
        cnt = np.bincount(fr, minlength=top + 1)
        mon.check(len(cnt) == top + 1 and (cnt == dims).all(), "complete-frequency", "per frequency: %s expected %s" % (cnt, dims), **ctx)
        # nested: lower limits span a subspace
        if prev is not None:
            mon.check(rank(np.concatenate([V, prev], 1)) == want, "nested", **ctx)
        prev = V
    # offset limits only remove elements
    if not continuous(sp):
        prevd = None
        for mo in (0, 1, 2):
            ba = kernel_basis(sp, s, rin, rout, [1.], 1., None, mo)
            bb = kernel_basis(sp, s, rin, rout, [1.], 1., 6, mo)
            full6 = kernel_basis(sp, s, rin, rout, [1.], 1., 6, None)
            d = 0 if ba is None else ba.dim
            if prevd is not None: mon.check(d >= prevd, "offset-monotone", "%s < %s" % (d, prevd), space=sp, rin=a, rout=b, max_offset=mo)
            prevd = d
            if bb is not None:
                V1, V2 = circle(bb, 1.), circle(full6, 1.)
                mon.check(rank(V1) == bb.dim, "offset-independent", space=sp, rin=a, rout=b, max_offset=mo)
                mon.check(rank(np.concatenate([V1, V2], 1)) == full6.dim, "offset-removes", space=sp, rin=a, rout=b, max_offset=mo)
            if ba is not None:
                fr = [abs(int(x["frequency"])) for x in ba]
                top = max(fr)
                if top < 30:
                    big = kernel_basis(sp, s, rin, rout, [1.], 1., top, None)
                    mon.check(big is not None and rank(circle(ba, 1.)) == ba.dim and rank(np.concatenate([circle(ba, 1.), circle(big, 1.)], 1)) == big.dim,
                              "offset-subset", space=sp, rin=a, rout=b, max_offset=mo)
            # a large enough offset gives everything in the band limit
        big = kernel_basis(sp, s, rin, rout, [1.], 1., 6, 30)
        full6 = kernel_basis(sp, s, rin, rout, [1.], 1., 6, None)
        mon.check((0 if big is None else big.dim) == (0 if full6 is None else full6.dim), "offset-large", space=sp, rin=a, rout=b)


def profiles(mon, sp, s, gs, g, a, b):
    """every radial profile is combined with every angular kernel"""
    rng = mon.rng
    rin, rout = build_rep(g, gs, a), build_rep(g, gs, b)
    radii = [0.5, 1.5, 3.0][:int(rng.integers(1, 4))]
    sig = [0.5, 0.4, 0.6][:len(radii)]
    mf = None if continuous(sp) else int(rng.integers(0, 5))
    one = kernel_basis(sp, s, rin, rout, [1.], 1., mf, None)
    basis = kernel_basis(sp, s, rin, rout, radii, sig, mf, None)
    ctx = dict(space=sp, rin=a, rout=b, radii=radii, max_frequency=mf)
    d1 = 0 if one is None else one.dim
    d = 0 if basis is None else basis.dim
    if not mon.check(d == d1 * len(radii), "profiles", "%d kernels, %d angular, %d rings" % (d, d1, len(radii)), **ctx): return
    if d:
        V = np.concatenate([circle(basis, r) for r in (0.4, 1., 1.6, 2.5, 3.2)], 0)
        mon.check(rank(V) == d, "profiles-independent", "rank %d of %d" % (rank(V), d), **ctx)
        from collections import Counter
        c = Counter((float(x["radius"]), float(x["sigma"])) for x in basis)
        mon.check(all(c[(r, q)] == d1 for r, q in zip(radii, sig)), "profiles-count", "%s" % c, **ctx)
        mon.seen("profile", sp, a, b, tuple(radii), mf)
