from ..lay import *
from .c12 import types, config, build
from e2cnn.nn import init

RULE = "distinct (layer kind, space, field types, kernel configuration, initialisation) sampled repeatedly: the second moment of every output irrep/field accumulated over the draws, and the sampled delta-orthonormal filters"
ASSUMPTIONS = ["second moments are estimated from thousands of draws and judged at 7 standard errors of the estimator, so a systematic deviation below a few percent in a single field can escape",
               "judged for types with orthogonal change of basis; output components which no kernel of the layer reaches are zero and are not judged",
               "delta-orthonormal initialisation is judged for odd kernels whose rings include the centre (otherwise no filter is supported there)"]


def units(tier, rng):
    us = []
    for kind in ("conv", "convT", "diffop"):
        for sp in LAYER_SPACES:
            us.append({"kind": kind, "sp": sp, "op": "he"}); us.append({"kind": kind, "sp": sp, "op": "delta"}); us.append({"kind": kind, "sp": sp, "op": "hecache"})
    return us


def ortho(t):
    return all(np.allclose(r.change_of_basis @ r.change_of_basis.T, np.eye(r.size), atol=1e-6) for r in t.reps)


def rows(t):
    """(field, rows of U^T in irreps basis) of every irrep of the type"""
    out = []; g = t.s.fibergroup
    for f, r in enumerate(t.reps):
        o = 0
        for k in r.irreps:
            n = g.irreps[k].size; out.append((f, np.arange(int(t.off[f]) + o, int(t.off[f]) + o + n), k)); o += n
    return out


def blockQ(t):
    return block_diag([np.linalg.inv(r.change_of_basis) for r in t.reps])


def filt(layer, kind, groups):
    """filters as (out, in/groups, taps)"""
    with torch.no_grad(): w, _ = layer.expand_parameters()
    w = npy(w)
    if kind == "convT":
        I, og = w.shape[:2]
        w = w.reshape(groups, I // groups, og, -1).transpose(0, 2, 1, 3).reshape(groups * og, I // groups, -1)
    else: w = w.reshape(w.shape[0], w.shape[1], -1)
    return w


def basis_of(layer, kind, groups):
    """the filter of every single weight: (weights, out, in, taps)"""
    out = []
    keep = layer.weights.data.clone()
    for k in range(layer.weights.numel()):
        with torch.no_grad(): layer.weights.data.zero_(); layer.weights.data[k] = 1.
        out.append(filt(layer, kind, groups))
    layer.weights.data.copy_(keep)
    return np.stack(out)


def snapshot(layer):
    return {k: v.detach().clone() for k, v in layer.state_dict().items() if k != "weights"}


def only_weights(mon, layer, before, ctx):
    after = snapshot(layer)
    mon.check(set(after) == set(before) and all(torch.equal(torch.nan_to_num(before[k].double()), torch.nan_to_num(after[k].double())) for k in before), "touched-other-state", **ctx)


def he(mon, rng, kind, sp, s):
    r = build(mon, rng, kind, sp, s)
    if r is None: return
    tin, tout, c, bc, layer, ctx = r
    layer.train(); n = layer.weights.numel()
    if n > 150 or not ortho(tin) or not ortho(tout): return
    groups = c["groups"]
    be = layer.basisexpansion
    ctx = dict(ctx, weights=n)
    mon.check(tuple(layer.weights.shape) == (n,) and be.dimension() == n, "dimension", **ctx)
    # a fresh layer: initialised weights, zero bias
    mon.check(bool(torch.isfinite(layer.weights).all()), "fresh-weights-not-finite", **ctx)
    if layer.bias is not None: mon.check(bool((layer.bias == 0).all()), "fresh-bias", **ctx)
    before = snapshot(layer)
    N = 3000 if mon.tier == "quick" else 30000
    D = np.empty((N, n)); w = torch.empty(n)
    seed = int(rng.integers(2 ** 31))
    # cached and uncached draws are the same numbers
    torch.manual_seed(seed); w.fill_(float("nan")); init.generalized_he_init(w, be, cache=True); a = w.clone()
    torch.manual_seed(seed); w.fill_(float("nan")); init.generalized_he_init(w, be); b = w.clone()
    torch.manual_seed(seed); w.fill_(float("nan")); init.generalized_he_init(w, be, cache=True)
    mon.check(torch.equal(a, b) and torch.equal(a, w), "cache-differs", "%s" % (a - b).abs().max(), **ctx)
    for k in range(N):
        w.fill_(float("nan")); init.generalized_he_init(w, be, cache=True); D[k] = w.numpy()
    if not mon.check(bool(np.isfinite(D).all()), "weight-not-written", "%d weights" % (~np.isfinite(D)).any(0).sum(), **ctx): return
    # writes into the parameter itself and nothing else
    with torch.no_grad(): layer.weights.data.fill_(float("nan"))
    p0 = layer.weights.data_ptr(); init.generalized_he_init(layer.weights.data, be); mon.check(bool(torch.isfinite(layer.weights).all()) and layer.weights.data_ptr() == p0, "parameter-not-written", **ctx)
    only_weights(mon, layer, before, ctx)
    sd = D.std(0); mean = D.mean(0)
    mon.check(bool((sd > 0).all()), "constant-weight", "%s" % np.where(sd == 0)[0][:5], **ctx)
    mon.check(bool((np.abs(mean) < 7 * sd / np.sqrt(N)).all()), "mean", "worst %.2f standard errors" % np.max(np.abs(mean) / (sd + 1e-30) * np.sqrt(N)), **ctx)
    # second moment of every output irrep for white input of unit variance
    F = basis_of(layer, kind, groups)          # (n, O, I, P)
    F = np.einsum("or,nrip->noip", blockQ(tout), F)
    # known finding grouped-transposed: there the variance of grouped transposed convolutions is too small by the number of groups
    want = [1., 1. / groups] if kind == "convT" else [1.]
    dev = lambda q: min(abs(q.mean() - v) for v in want)
    fields = {}
    for f, ix, irrep in rows(tout):
        B = F[:, ix].reshape(n, -1)
        G = B @ B.T
        if np.abs(G).max() < 1e-8: fields.setdefault(f, []).append(None); continue
        q = np.einsum("kn,nm,km->k", D, G, D) / len(ix)
        m, se = q.mean(), q.std() / np.sqrt(N)
        mon.check(dev(q) < 7 * se + 2e-3, "irrep-moment", "%s of field %d: second moment %.4f +- %.4f" % (irrep, f, m, se), **ctx)
        fields.setdefault(f, []).append((q * len(ix), len(ix)))
    for f, l in fields.items():
        if any(x is None for x in l): continue
        q = sum(x[0] for x in l) / sum(x[1] for x in l)
        mon.check(dev(q) < 7 * q.std() / np.sqrt(N) + 2e-3, "field-moment", "field %d (%s): second moment %.4f +- %.4f" % (f, tout.specs[f], q.mean(), q.std() / np.sqrt(N)), **ctx)
        mon.seen("he", kind, sp, repr(tin.specs), repr(tout.specs), f, repr(c), repr(bc))
    # freshly constructed layers draw from the same distribution
    z = []
    for _ in range(3):
        l2 = make_layer(kind, tin, tout, c, bc); z.append(npy(l2.weights) / sd)
    z = np.concatenate(z)
    mon.acc.setdefault("fresh", []).append((float((z ** 2).sum()), len(z)))
    mon.check(bool((np.abs(z) < 8).all()) and len(set(z.tolist())) > len(z) // 2, "fresh-weights", "largest %.1f standard deviations" % np.abs(z).max(), **ctx)
    l3 = make_layer(kind, tin, tout, dict(c, initialize=False), bc)
    mon.check(bool((l3.weights == 0).all()) , "initialize=False", **ctx)
    if n > 1: mon.raises(lambda: init.generalized_he_init(torch.zeros(n - 1), be), "short-tensor-accepted", **ctx); mon.raises(lambda: init.deltaorthonormal_init(torch.zeros(n + 1), be), "long-tensor-accepted", **ctx)


def grouped_transposed(mon):
    sp = ("rot", 4); s = space(sp); t = Ty(sp, s, [("regular",)] * 2)
    l = enn.R2ConvTransposed(t.ft, t.ft, kernel_size=3, padding=1, groups=2, bias=False); torch.manual_seed(1)
    e = []
    for _ in range(400):
        init.generalized_he_init(l.weights.data, l.basisexpansion); e.append((filt(l, "convT", 2) ** 2).sum() / t.size)
    m = float(np.mean(e))
    mon.check(abs(m - 1) < .2, "grouped-transposed", "R2ConvTransposed with 2 groups of one regular field: second moment of the output is %.2f instead of 1" % m)


def hecache(mon, rng, kind, sp, s):
    """the cached variances belong to the layer they are used for, whatever was initialised before"""
    groups, a, b = types(rng, sp, s)
    a, b = list(a[:3]), list(b[:3])
    x, y = a[0], b[0]
    fam = [(a, b), (b, a), (a[::-1], b), (a, b[::-1]), ([x] * 2, [y] * 3), ([x] * 3, [y] * 2), ([x], [y] * 6), ([x] * 6, [y]), ([x, y], [x, y]), ([y, x], [x, y]), ([x, y, x], [y]), ([x, x, y], [y]), ([y, x, x], [y])]
    cfg = [dict(kernel_size=3), dict(kernel_size=5)] if kind != "diffop" else [dict(maximum_order=1), dict(maximum_order=2)]
    todo = []
    for A, B in fam:
        for c in cfg:
            tin, tout = Ty(sp, s, A), Ty(sp, s, B)
            if tin.size * tout.size > 400: continue
            c = dict(c, padding=1, groups=1, bias=False, initialize=False)
            try: l = make_layer(kind, tin, tout, c, {})
            except ValueError: continue
            if l.weights.numel(): todo.append((l, dict(kind=kind, space=sp, tin=tin.specs, tout=tout.specs, cfg=c)))
    hist = []
    for i in rng.permutation(len(todo)):
        l, ctx = todo[int(i)]; n = l.weights.numel(); seed = int(rng.integers(2 ** 31))
        w = torch.full((n,), float("nan")); torch.manual_seed(seed); init.generalized_he_init(w, l.basisexpansion, cache=True)
        v = torch.full((n,), float("nan")); torch.manual_seed(seed); init.generalized_he_init(v, l.basisexpansion)
        mon.check(torch.allclose(w, v, rtol=1e-5, atol=1e-7), "cached-variance-of-another-layer", "off by %.3g after %d layers" % ((w - v).abs().max(), len(hist)), history=hist[-3:], **ctx)
        hist.append((ctx["tin"], ctx["tout"], ctx["cfg"].get("kernel_size") or ctx["cfg"].get("maximum_order")))
        mon.seen("hecache", kind, sp, repr(hist[-1]))


def delta(mon, rng, kind, sp, s):
    groups, a, b = types(rng, sp, s)
    if rng.integers(3):
        b = [a[int(i)] for i in rng.permutation(len(a) // groups)] * groups
    tin, tout = Ty(sp, s, a), Ty(sp, s, b)
    if not ortho(tin) or not ortho(tout): return
    k = int(rng.choice([1, 3, 5, 7]))
    c = dict(groups=groups, bias=bool(rng.integers(2)))
    if kind == "diffop": c.update(maximum_order=int(rng.integers(0, 3))) if rng.integers(2) else c.update(kernel_size=max(k, 3))
    else:
        c["kernel_size"] = k
        if rng.integers(3) == 0: c["frequencies_cutoff"] = float(rng.choice([-1., -2., -3., 1., 2.]))
        if rng.integers(3) == 0: c["dilation"] = 2
    c["padding"] = 1
    ctx = dict(kind=kind, space=sp, tin=tin.specs, tout=tout.specs, cfg=c)
    try: layer = make_layer(kind, tin, tout, c, {})
    except ValueError: return
    if layer.weights.numel() == 0 or layer.kernel_size % 2 == 0: return
    layer.train()
    before = snapshot(layer)
    layer.weights.data.fill_(float("nan"))
    with mon.guard("raises", **ctx):
        init.deltaorthonormal_init(layer.weights.data, layer.basisexpansion)
        if not mon.check(bool(torch.isfinite(layer.weights).all()), "weight-not-written", **ctx): return
        only_weights(mon, layer, before, ctx)
        F = filt(layer, kind, groups)
        P = F.shape[2]
        ctr = F[:, :, P // 2]; off = np.delete(F, P // 2, axis=2)
        mon.check(np.abs(off).max(initial=0) < 1e-5, "off-centre", "%.2e" % np.abs(off).max(initial=0), **ctx)
        Qo, Qi = blockQ(tout), blockQ(tin)
        og, ig = tout.size // groups, tin.size // groups
        ro = [x for x in rows(tout) if x[0] < len(tout.specs) // groups]; ri = [x for x in rows(tin) if x[0] < len(tin.specs) // groups]
        for g in range(groups):
            M = Qo[g * og:(g + 1) * og, g * og:(g + 1) * og] @ ctr[g * og:(g + 1) * og] @ Qi[g * ig:(g + 1) * ig, g * ig:(g + 1) * ig].T
            done = np.zeros_like(M, dtype=bool)
            for k in sorted(set(x[2] for x in ro) & set(x[2] for x in ri)):
                io = np.concatenate([x[1] for x in ro if x[2] == k]); ii = np.concatenate([x[1] for x in ri if x[2] == k])
                m = M[np.ix_(io, ii)]; done[np.ix_(io, ii)] = True
                if groups > 1: continue
                d = min(m.shape)
                G = m @ m.T if len(io) <= len(ii) else m.T @ m
                mon.check(np.abs(G - np.eye(d)).max() < 2e-4, "not-orthonormal", "irrep %s, deviation %.2e" % (k, np.abs(G - np.eye(d)).max()), **ctx)
            mon.check(np.abs(M[~done]).max(initial=0) < 1e-5, "mixes-irreps", **ctx)
            if groups == 1 and sorted(x[2] for x in ro) == sorted(x[2] for x in ri):
                full = ctr[g * og:(g + 1) * og]
                mon.check(np.abs(full @ full.T - np.eye(og)).max() < 2e-4, "norm-not-preserved", "%.2e" % np.abs(full @ full.T - np.eye(og)).max(), **ctx)
                mon.seen("isometry", kind, sp, repr(tin.specs), repr(c))
        mon.seen("delta", kind, sp, repr(tin.specs), repr(tout.specs), repr(c))


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng
    mon.acc = {}
    q = mon.tier == "quick"
    for _ in range({"he": 3, "delta": 12, "hecache": 1}[u["op"]] * (1 if q else 15)):
        with mon.guard("raises", kind=u["kind"], space=sp, op=u["op"]):
            {"he": he, "delta": delta, "hecache": hecache}[u["op"]](mon, rng, u["kind"], sp, s)
    if u["kind"] == "convT" and u["op"] == "he" and sp == ("rot", 4): grouped_transposed(mon)
    fr = mon.acc.get("fresh")
    if fr:
        S, n = sum(x[0] for x in fr), sum(x[1] for x in fr)
        if n >= 100: mon.check(abs(S / n - 1) < 7 * math.sqrt(2 / n) + .08, "fresh-variance", "mean square of %d fresh weights is %.3f times that of the initialisation" % (n, S / n), kind=u["kind"], space=sp)
    mon.sample({"kind": u["kind"], "space": sp, "op": u["op"]})
