from ..kern import *
from .c08 import spaces as spaces8
from .c09 import rank

RULE = "distinct (space, input rep, output rep, frequency limit, Laplacian power, element) operators judged against the equivariance constraint, their attributes and the dimension of all equivariant operators"
ASSUMPTIONS = ["polynomial identities judged at random points within radius 1.5, tolerance 1e-6 relative to the largest coefficient", "dimension by the exact character formula, rank by SVD at relative 1e-7"]


def units(tier, rng):
    us = []
    for s in spaces8(tier, rng):
        us += [{"sp": s}] * (2 if tier == "quick" else 6)
    return [dict(u) for u in us]


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); gs = space_gspec(sp); rng = mon.rng; g = s.fibergroup
    mf = min(3, gs[1]) if gs[0] in ("SO2", "O2") else None
    irr = [("irrep", i) for i in irrep_ids(gs, maxf=mf)]
    pairs = [(a, b) for a in irr for b in irr]
    lim = 20 if mon.tier == "quick" else 120
    if len(pairs) > lim: pairs = [pairs[int(i)] for i in rng.choice(len(pairs), lim, replace=False)]
    pool = rep_specs(gs, rng, 8, maxsize=8, maxf=3)
    pairs += [(pool[2 * i], pool[2 * i + 1]) for i in range(4)] + [(pool[0], pool[0])]
    for a, b in pairs: one(mon, sp, s, gs, g, a, b)


def one(mon, sp, s, gs, g, a, b):
    rng = mon.rng
    rin, rout = build_rep(g, gs, a), build_rep(g, gs, b)
    power = int(rng.integers(0, 3))
    mf = None if continuous(sp) else int(rng.choice([0, 1, 2, 3, 4, 5]))
    mo = None
    if mf is not None and rng.integers(4) == 0: mo = int(rng.integers(0, 3))
    if mo is not None and rng.integers(2): mf = None
    via_space = bool(rng.integers(2))
    basis = (space_diffop_basis(sp, s, rin, rout, power, mf, mo) if via_space else diffop_basis(sp, rin, rout, power, mf, mo))
    ctx = dict(space=sp, rin=a, rout=b, max_power=power, max_frequency=mf, max_offset=mo, via_space=via_space)
    top = 16 if mf is None else mf
    dims = np.round(hom_dims(sp, lambda e: ref_matrix(rin, gs, e), lambda e: ref_matrix(rout, gs, e), top)).astype(int)
    want = int(dims.sum()) * (power + 1)
    got = 0 if basis is None else basis.dim
    mon.seen("basis", sp, a, b, mf, mo, power)
    if mo is not None: dims = None
    # the same angular solutions as convolution kernels get from the same limits
    kb = kernel_basis(sp, s, rin, rout, [1.], 1., mf, mo)
    fk = sorted((power + 1) * ([] if kb is None else [abs(int(x["frequency"])) for x in kb]))
    fd = sorted([] if basis is None else [abs(int(x["frequency"])) for x in basis])
    mon.check(fk == fd, "as-kernels", "angular frequencies of operators %s, of kernels %s" % (fd[:20], fk[:20]), **ctx)
    if not mon.check(got == want if mo is None else got <= want or mf is None, "complete", "library offers %d operators, %d exist" % (got, want), **ctx): return
    if basis is None: return
    C = basis.coefficients
    if not mon.check(len(C) == basis.dim and all(c.shape[:2] == (rout.size, rin.size) for c in C) and tuple(basis.shape) == (rout.size, rin.size), "shape", **ctx): return
    P = rng.normal(size=(2, 12)); P = P / np.maximum(1, np.sqrt((P ** 2).sum(0)) / 1.5)
    V = [poly_eval(c, P) for c in C]
    for e in sample_elements(gs, rng, 10):
        M = space_planar(sp, e)
        Ro, Ri = ref_matrix(rout, gs, e), np.linalg.inv(ref_matrix(rin, gs, e))
        for i, c in enumerate(C):
            w = poly_eval(c, M @ P)
            if not mon.close(w, np.einsum("oO,OIp,Ii->oip", Ro, V[i], Ri), "steerable", "P(gx) != rho_out P(x) rho_in^-1", atol=2e-6 * max(1, np.abs(c).max()), e=e, i=i, **ctx): return
    attributes(mon, basis, C, rin, rout, gs, dims, power, ctx)
    if a[0] == b[0] == "irrep": by_id(mon, sp, gs, g, a[1], b[1], (mf, mo), ctx)
    # independence: degree by degree is enough as polynomials of different degree are independent
    deg = {}
    for c in C: deg.setdefault(c.shape[-1], []).append(c.reshape(-1) / np.abs(c).max())
    for d, cs in deg.items():
        m = np.stack(cs, 1)
        mon.check(rank(m) == len(cs), "independent", "rank %d of %d at order %d" % (rank(m), len(cs), d - 1), **ctx)
    mon.check(basis.maximum_order == max(c.shape[-1] - 1 for c in C), "maximum-order", **ctx)
    # offset limits only remove
    if not continuous(sp):
        for mo in (0, 1):
            bo = space_diffop_basis(sp, s, rin, rout, 0, None, mo) if via_space else diffop_basis(sp, rin, rout, 0, None, mo)
            ctx["max_offset"] = mo
            n = 0 if bo is None else bo.dim
            if n:
                deg = {}
                for c in bo.coefficients: deg.setdefault(c.shape[-1], []).append(c.reshape(-1) / np.abs(c).max())
                mon.check(all(rank(np.stack(cs, 1)) == len(cs) for cs in deg.values()), "offset-independent", **ctx)
                fr = [abs(int(x["frequency"])) for x in bo]
                big = diffop_basis(sp, rin, rout, 0, max(fr), None)
                bd = {}
                for c in big.coefficients: bd.setdefault(c.shape[-1], []).append(c.reshape(-1) / np.abs(c).max())
                mon.check(all(d in bd and rank(np.stack(cs + bd[d], 1)) == len(bd[d]) for d, cs in deg.items()), "offset-subset", **ctx)


def by_id(mon, sp, gs, g, a, b, lims, ctx):
    """solutions for irreps given as objects, by name or by their frequencies are the same ones, and each is made of equivariant operators"""
    from e2cnn.diffops import irreps_basis as I
    kw = {} if continuous(sp) else dict(max_frequency=lims[0], max_offset=lims[1])
    cls = {"flip": "R2FlipsSolution", "rot": "R2ContinuousRotationsSolution" if continuous(sp) else "R2DiscreteRotationsSolution", "triv": "R2DiscreteRotationsSolution",
           "fliprot": "R2FlipsContinuousRotationsSolution" if continuous(sp) else "R2FlipsDiscreteRotationsSolution"}[sp[0]]
    cls = getattr(I, cls, None)
    if cls is None: return
    if sp[0] in ("flip", "fliprot"): kw["axis"] = float(space_axis(sp))
    short = lambda i: i[0] if len(i) == 1 else tuple(i)
    ways = [(g.irrep(*a), g.irrep(*b)), (irrep_name(a), irrep_name(b)), (short(a), short(b)), (g.irrep(*a), irrep_name(b)), (short(a), g.irrep(*b))]
    P = mon.rng.normal(size=(2, 7)); objs = []
    els = sample_elements(gs, mon.rng, 4)
    for n, (p, q) in enumerate(ways):
        gg = gs[1] if n == 2 and sp[0] in ("rot", "fliprot", "triv") and not continuous(sp) else g
        with mon.guard("irreps-basis", way=n, **ctx):
            o = cls(gg, p, q, **kw)
            objs.append(o)
            mon.check(o.in_irrep is g.irrep(*a) and o.out_irrep is g.irrep(*b), "by-id", "irreps", **ctx)
            for i, c in enumerate(o.coefficients):
                w = objs[0].coefficients[i]
                if not mon.check(c.shape == w.shape and np.allclose(c, w), "by-id", "operator %d for %s" % (i, (str(p), str(q))), **ctx): return
                for e in els if n == 0 else ():
                    got = poly_eval(c, space_planar(sp, e) @ P)
                    mon.close(got, np.einsum("oO,OIp,Ii->oip", irrep_ref(gs, b, e), poly_eval(c, P), np.linalg.inv(irrep_ref(gs, a, e))), "irreps-steerable", atol=2e-6 * max(1, np.abs(got).max()), e=e, i=i, **ctx)
            A = [dict(x) for x in o]
            mon.check(len(A) == o.dim == len(o.coefficients) and all(x["idx"] == i for i, x in enumerate(A)), "irreps-attr", **ctx)
            mon.check(all(o[i] == A[i] for i in range(o.dim)), "irreps-attr", "item", **ctx)
    mon.check(all(o == objs[0] and hash(o) == hash(objs[0]) for o in objs), "by-id", "solutions for the same irreps differ", **ctx)


def attributes(mon, basis, C, rin, rout, gs, dims, power, ctx):
    A = [dict(x) for x in basis]
    if not mon.check(len(A) == basis.dim, "attr-count", **ctx): return
    ipos = np.cumsum([0] + [irrep_dim(gs, id_of_name(n)) for n in rin.irreps])
    opos = np.cumsum([0] + [irrep_dim(gs, id_of_name(n)) for n in rout.irreps])
    L = 64; th = TAU * np.arange(L) / L
    circ = np.stack([np.cos(th), np.sin(th)])
    cnt = {}
    Bi = np.linalg.inv(rout.change_of_basis)
    for i, a in enumerate(A):
        b = basis[i]
        mon.check(set(a) == set(b) and all(a[k] == b[k] for k in a), "attr-getitem", "iter %r getitem %r" % (a, b), **ctx)
        mon.check(a["idx"] == i, "attr-idx", "%s" % a, **ctx)
        c = C[i]
        mon.check(np.abs(c).max() > 1e-3, "nonzero", attr=a, **ctx)
        mon.check(a["order"] == c.shape[-1] - 1, "attr-order", "declared %s, degree %d" % (a["order"], c.shape[-1] - 1), **ctx)
        f = abs(int(a["frequency"])); p = int(a["power"])
        mon.check(a["order"] == f + 2 * p and 0 <= p <= power, "attr-order", "%s" % a, **ctx)
        w = np.einsum("oO,OIb,Ii->oib", Bi, c, rin.change_of_basis)
        ii, oo = a["in_irrep_idx"], a["out_irrep_idx"]
        if not mon.check(0 <= ii < len(rin.irreps) and 0 <= oo < len(rout.irreps) and rin.irreps[ii] == a["in_irrep"] and rout.irreps[oo] == a["out_irrep"], "attr-irrep", "%s" % a, **ctx): continue
        mon.check(tuple(a["shape"]) == (opos[oo + 1] - opos[oo], ipos[ii + 1] - ipos[ii]), "attr-shape", "%s" % a, **ctx)
        v = poly_eval(w, circ)
        rest = w.copy(); rest[opos[oo]:opos[oo + 1], ipos[ii]:ipos[ii + 1]] = 0
        mon.check(np.abs(rest).max() < 1e-6 * max(1, np.abs(w).max()), "attr-block", "leaves the declared irrep block", attr=a, **ctx)
        spec = np.abs(np.fft.fft(v, axis=-1)).max((0, 1)) / L
        r = spec.copy(); r[f] = 0; r[-f] = 0
        mon.check(spec[f] > 1e-6 and r.max() < 1e-6 * max(1, np.abs(w).max()), "attr-frequency", "%s %s" % (a, np.round(spec[:12], 4)), **ctx)
        cnt[(f, p)] = cnt.get((f, p), 0) + 1
        mon.seen("operator", ctx["space"], ctx["rin"], ctx["rout"], i, a["order"])
    for f in range(len(dims) if dims is not None else 0):
        for p in range(power + 1):
            mon.check(cnt.get((f, p), 0) == dims[f], "complete-frequency", "frequency %d power %d: %d operators, %d exist" % (f, p, cnt.get((f, p), 0), dims[f]), **ctx)
    mon.sample({k: str(v) for k, v in ctx.items()} | {"dim": basis.dim})
