from ..lay import *
from .c12 import types, config

RULE = "distinct (layer kind, space, field types, kernel size, dilation, rings, widths, cut-off, parameter) filters compared with the span of independently computed equivariant kernels/operators on the grid"
ASSUMPTIONS = ["the equivariant kernels of each angular frequency come from an exact group average; memberships judged at relative 1e-3 (float32 filters)",
               "default rings/widths/cut-off follow the policy of the pinned release",
               "kernels with sampled norm below 1e-3 count as invisible on the grid"]


def units(tier, rng):
    us = []
    for kind in ("conv", "convT", "diffop"):
        for sp in LAYER_SPACES + [("flip", 0.3), ("fliprot", 5, 1.1), ("rot", 5)]:
            for r in range(3 if tier == "quick" else 24): us.append({"kind": kind, "sp": sp, "n": {"conv": 14, "convT": 8, "diffop": 10}[kind], "r": r})
    return us


def default_rings(kind, k, dil):
    n = math.ceil(k / 2)
    return [float(x) * (dil if kind == "conv" else 1) for x in np.linspace(0, (k - 1) // 2, n)]


def default_sigma(rings):
    s = [0.6] * (len(rings) - 1) + [0.4]
    return [0.005 if r == 0 else x for r, x in zip(rings, s)]


def default_fco(name, mr):
    if name == -1.: return lambda r: 0 if r == 0 else min(2 * r, 2 if r == mr else 2 * r - (r + 1) % 2)
    if name == -2.: return lambda r: 0 if r == 0 else min(2 * r, 1 if r == mr else 2 * r - (r + 1) % 2)
    if name == -3.: return lambda r: 0 if r == 0 else 1 if r == mr else 2
    return lambda r: name * r


_memo = {}


def equivariant_coeffs(sp, tin, tout, i, o, m):
    """basis (n, out, in, 2) of coefficients (A, B) with A cos(m t) + B sin(m t) equivariant, by group averaging"""
    key = (sp, tin.specs[i], tout.specs[o], m)
    if key in _memo: return _memo[key]
    g, gs = tin.s.fibergroup, tin.gs
    so, si = tout.sizes[o], tin.sizes[i]
    P = 0
    els = group_quadrature(sp)
    th = 0.1 + TAU * np.arange(max(3, 2 * m + 1)) / max(3, 2 * m + 1)
    X = np.stack([np.cos(th), np.sin(th)])
    Y = np.stack([np.cos(m * th), np.sin(m * th)], 1)
    for e in els:
        M = space_planar(sp, e)
        Z = np.linalg.inv(M) @ X
        a = np.arctan2(Z[1], Z[0])
        H = np.linalg.lstsq(Y, np.stack([np.cos(m * a), np.sin(m * a)], 1), rcond=None)[0]   # new coefficients = H @ (A, B)
        Ro, Ri = rep_ref(g, gs, tout.specs[o], e), np.linalg.inv(rep_ref(g, gs, tin.specs[i], e))
        P = P + np.kron(np.kron(Ro, Ri.T), H)
    P = P / len(els)
    U, s, _ = np.linalg.svd(P)
    n = int((s > 0.5).sum())
    C = U[:, :n].T.reshape(n, so, si, 2)
    if m == 0: C = C[np.abs(C[..., 0]).max((1, 2)) > 1e-9] if n else C
    _memo[key] = C
    return C


def grid(k, d):
    o = d * (k - 1) / 2
    return np.array([(x * d - o, -y * d + o) for y in range(k) for x in range(k)]).T


def ring_kernels(C, m, R0, sig, P):
    r = np.sqrt((P ** 2).sum(0)); t = np.arctan2(P[1], P[0])
    prof = np.exp(-0.5 * ((r - R0) / sig) ** 2)
    if m > 0: prof = np.where(r < 1e-9, 0, prof)
    ang = np.stack([np.cos(m * t), np.sin(m * t)])
    return np.einsum("noia,ap,p->noip", C, ang, prof)


def stencils(k, d):
    """1-d stencils: S[a] @ f(points) = f^(a)(0), increasing coordinate"""
    x = (np.arange(k) - (k - 1) / 2) * d
    V = np.vander(x, k, increasing=True).T            # V[a, j] = x_j^a
    out = []
    for a in range(k):
        b = np.zeros(k); b[a] = math.factorial(a)
        out.append(np.linalg.solve(V, b))
    return np.array(out)


def op_kernels(C, m, p, k, d, offset=None):
    """stencils (n, o, i, k*k) of (laplacian^p) * harmonic polynomial of frequency m"""
    S = stencils(k, d)
    n = m + 2 * p
    # coefficients of Re, Im (x+iy)^m (x^2+y^2)^p in x^(n-j) y^j
    z = np.array([1.0 + 0j])
    for _ in range(m): z = np.convolve(z, [1, 1j])
    if offset is not None: z = z * np.exp(-1j * m * offset)
    for _ in range(p): z = np.convolve(z, [1, 0, 1])
    out = np.zeros((2, k * k))
    for j in range(n + 1):
        if n - j >= k or j >= k: return None
        st = np.einsum("y,x->yx", S[j][::-1], S[n - j])    # rows go downwards = decreasing y
        out[0] += z[j].real * st.reshape(-1); out[1] += z[j].imag * st.reshape(-1)
    return np.einsum("noia,ap->noip", C, out)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; kind = u["kind"]
    for _ in range(u["n"]): one(mon, rng, kind, sp, s)


def one(mon, rng, kind, sp, s):
    groups, a, b = types(rng, sp, s)
    tin, tout = Ty(sp, s, a), Ty(sp, s, b)
    c, bc = config(rng, kind, sp)
    while kind == "convT" and c["dilation"] != 1: c, bc = config(rng, kind, sp)
    c["groups"] = groups; c["padding"] = 0; c.pop("padding_mode", None); c.pop("output_padding", None)
    custom = None
    if rng.integers(6) == 0:
        par = int(rng.integers(2))
        custom = lambda d: d["frequency"] % 2 == par
    ctx = dict(kind=kind, space=sp, tin=a, tout=b, cfg=c, basis=bc, filtered=custom is not None)
    kw = dict(c); kw.update(basis_kwargs(bc))
    if custom: kw["basis_filter"] = custom
    cls = {"conv": enn.R2Conv, "convT": enn.R2ConvTransposed, "diffop": enn.R2Diffop}[kind]
    try:
        layer = cls(tin.ft, tout.ft, **kw)
        if layer.weights.numel() == 0: layer = None
    except ValueError as e:
        if "basis for the steerable filter is empty" not in str(e): raise
        layer = None
    ok = (lambda m: True) if custom is None else (lambda m: m % 2 == par)
    # -------- the reference: for each (field pair) the list of (radial label, frequency, sampled kernels)
    nin, nout = len(a), len(b)
    if kind == "convT": nout //= groups
    else: nin //= groups
    if kind == "diffop":
        import e2cnn.diffops.utils as du
        k = layer.kernel_size if layer is not None else None
        if layer is None: mon.seen("empty", kind, sp); return
        acc = c.get("accuracy"); mo = c.get("maximum_order")
        if mo is None:
            mo = max([-1] + [o for o in range(k + 1) if du.required_points(o, acc or (2 if k > 1 else 1)) <= k])
        mp = mo // 2 if c.get("maximum_power") is None else min(c["maximum_power"], mo // 2)
        bands = [(m + 2 * p, m, p) for m in range(mo + 1) for p in range(mp + 1) if m + 2 * p <= mo and ok(m)]
        samp = lambda i, o, band: op_kernels(equivariant_coeffs(sp, tin, tout, i, o, band[1]), band[1], band[2], k, c["dilation"], c.get("angle_offset"))
    else:
        k = c["kernel_size"]
        rings = bc.get("rings") or default_rings(kind, k, c["dilation"])
        sig = bc.get("sigma")
        sig = default_sigma(rings) if sig is None else [sig] * len(rings) if isinstance(sig, float) else sig
        fco = cut(bc["fco"]) if "fco" in bc else default_fco(bc.get("frequencies_cutoff", -1.), k // 2)
        P = grid(k, c["dilation"])
        bands = [(r, m, w) for r, w in zip(rings, sig) for m in range(0, int(math.floor(fco(r) + 1e-12)) + 1) if ok(m) and m <= int(max(fco(q) for q in rings))]
        samp = lambda i, o, band: ring_kernels(equivariant_coeffs(sp, tin, tout, i, o, band[1]), band[1], band[0], band[2], P)
    memo = {}; samp0 = samp

    def samp(i, o, band):
        if (i, o, band) not in memo: memo[i, o, band] = samp0(i, o, band)
        return memo[i, o, band]
    blocks = {}; pairs = [(o, i) for o in range(nout) for i in range(nin)]
    # -------- the layer
    if layer is not None:
        D = layer.weights.numel()
        be = layer.basisexpansion
        info = [dict(d) for d in be.get_basis_info()]
        if not mon.check(be.dimension() == D == len(info) == len(be.get_basis_names()) == len(set(be.get_basis_names())), "dimension", "%d weights, %d described" % (D, len(info)), **ctx): return
        layer.train()

        def filt(w):
            with torch.no_grad(): layer.weights.copy_(t32(w))
            f = npy(layer.expand_parameters()[0])
            if kind == "convT": f = f.transpose(1, 0, 2, 3)
            return f.reshape(f.shape[0], f.shape[1], -1)

        # linear
        w1, w2 = rng.normal(size=D), rng.normal(size=D)
        al = float(rng.normal())
        f1, f2, f3 = filt(w1), filt(w2), filt(w1 + al * w2)
        tol = 1e-4 * (np.abs(f1).max() + np.abs(f2).max())
        mon.close(f3, f1 + al * f2, "linear", atol=tol * (1 + abs(al)), **ctx)
        mon.check(np.abs(filt(np.zeros(D))).max() == 0, "linear", "zero weights give a non-zero filter", **ctx)
        # elements (of some field pairs only, when the layer is large)
        cost = float(D) * D * f1.size
        if cost > 1e9: pairs = [pairs[int(q)] for q in rng.permutation(len(pairs))[:max(1, int(len(pairs) * 1e9 / cost))]]
        for d in range(D):
            at = (info[d]["out_field_position"], info[d]["in_field_position"])
            if not mon.check(0 <= at[0] < nout and 0 <= at[1] < nin, "metadata", "field positions %s" % (at,), **ctx): return
            if at not in pairs: continue
            w = np.zeros(D); w[d] = 1
            f = filt(w)
            at = info[d]
            i, o = at["in_field_position"], at["out_field_position"]
            si, so = slice(int(tin.off[i]), int(tin.off[i + 1])), slice(int(tout.off[o]), int(tout.off[o + 1]))
            rest = f.copy(); rest[so, si] = 0
            if not mon.check(np.abs(rest).max() == 0 and np.abs(f).max() > 1e-7, "support", "parameter %d (%s) acts outside its declared field pair or nowhere" % (d, at["id"]), **ctx): return
            K = f[so, si]
            mon.check(at["in_repr"] == tin.reps[i].name and at["out_repr"] == tout.reps[o].name and at["idx"] == d and be.get_basis_names()[d] == at["id"], "metadata", str(at), **ctx)
            # irreps sub-block
            rin, rout = tin.reps[i], tout.reps[o]
            T = np.einsum("Oo,oip,iI->OIp", rout.change_of_basis_inv, K, rin.change_of_basis)
            io_, oo_ = irr_slice(rin, at["in_irrep_idx"]), irr_slice(rout, at["out_irrep_idx"])
            rest = T.copy(); rest[oo_, io_] = 0
            mon.check(np.abs(rest).max() <= 1e-4 * np.abs(T).max(), "irrep-block", "parameter %d (%s) is not confined to the declared irreps" % (d, at["id"]), **ctx)
            mon.check(rin.irreps[at["in_irrep_idx"]] == at["in_irrep"] and rout.irreps[at["out_irrep_idx"]] == at["out_irrep"] and
                      at["in_irreps_position"] == sum(len(r.irreps) for r in tin.reps[:i]) + at["in_irrep_idx"] and
                      at["out_irreps_position"] == sum(len(r.irreps) for r in tout.reps[:o]) + at["out_irrep_idx"], "metadata", str(at), **ctx)
            if d % 7 == 0 or d < 8:
                g1, g2 = be.get_element_info(d), be.get_element_info(at["id"])
                mon.check(all(str(g1[q]) == str(at[q]) == str(g2[q]) for q in at), "metadata-lookup", "%s / %s" % (g1, at), **ctx)
            m = int(round(abs(float(at["frequency"]))))
            lab = at["order"] if kind == "diffop" else float(at["radius"])
            mine = [bd for bd in bands if bd[1] == m and abs(bd[0] - lab) < 1e-6]
            if not mon.check(len(mine) >= 1, "band", "parameter %d declares radius/order %s and frequency %s, outside of the requested band %s" % (d, lab, m, [x[:2] for x in bands][:20]), **ctx): return
            refs = [samp(i, o, bd) for bd in mine]
            refs = [q for q in refs if q is not None]
            if not refs: continue
            A = np.concatenate([q.reshape(q.shape[0], int(np.prod(q.shape[1:]))) for q in refs]).T
            ok_ = A.shape[1] > 0 and resid(A, K.reshape(-1)) < 1e-3
            if not mon.check(ok_, "member", "parameter %d (%s) is not the grid sampling of an equivariant kernel at radius/order %s and frequency %d" % (d, at["id"], lab, m), **ctx): return
            mon.seen("parameter", kind, sp, str(a), str(b), str(c), str(bc), d)
            blocks.setdefault((o, i), []).append(K.reshape(-1) / np.linalg.norm(K))
        # gradient
        layer.zero_grad()
        f, _ = layer.expand_parameters()
        (f * t32(rng.normal(size=tuple(f.shape)))).sum().backward()
        gr = layer.weights.grad
        mon.check(gr is not None and bool((gr.abs() > 0).all()), "gradient", "parameters without gradient: %s" % (None if gr is None else [info[int(q)]["id"] for q in torch.nonzero(gr == 0)[:4, 0]],), **ctx)
        if layer.bias is not None:
            randomize(layer, rng)
            x = GeometricTensor(t32(rng.normal(size=(2, tin.size, 9 + 2 * k * c["dilation"], 9 + 2 * k * c["dilation"]))), tin.ft)
            layer.zero_grad()
            y = layer(x).tensor
            (y * torch.randn_like(y)).sum().backward()
            mon.check(bool((layer.bias.grad.abs() > 0).all()) and bool((layer.weights.grad.abs() > 0).all()), "gradient", "no gradient through forward", **ctx)
    # -------- completeness
    if "maximum_offset" not in bc and "maximum_offset" not in c:
        for o, i in pairs:
            if True:
                A = np.array(blocks.get((o, i), np.zeros((0, 1)))).T
                for bd in bands:
                    Q = samp(i, o, bd)
                    if Q is None: continue
                    V = Q.reshape(Q.shape[0], int(np.prod(Q.shape[1:]))); V = V[np.linalg.norm(V, axis=1) >= 1e-3]
                    if not len(V): continue
                    for r_ in (resid(A, V.T, many=True) if A.shape[1] > 0 else [1.]):
                        mon.seen("complete", kind, sp, str(a), str(b), str(c), str(bc), o, i, bd)
                        if not mon.check(r_ < 2e-3, "complete", "an equivariant kernel at radius/order %s, frequency %d for field pair (out %d, in %d) is missing" % (bd[0], bd[1], o, i), **ctx): return
    mon.sample({k_: str(v) for k_, v in ctx.items()})


def irr_slice(rep, idx):
    g = rep.group
    p = 0
    for j, n in enumerate(rep.irreps):
        d = g.irreps[n].size
        if j == idx: return slice(p, p + d)
        p += d


def resid(A, v, many=False):
    """relative distance of v (or of its columns) to the column space of A"""
    v = v / np.linalg.norm(v, axis=0)
    n = np.linalg.norm(A, axis=0)
    An = A[:, n > 1e-12] / n[n > 1e-12]
    if An.shape[1] == 0: return np.ones(v.shape[1]) if many else 1.0
    x = np.linalg.lstsq(An, v, rcond=1e-6)[0]
    r = np.linalg.norm(An @ x - v, axis=0)
    return r if many else float(r)
