from ..zoo import *
from . import c06

RULE = "distinct (nonlinearity, options, space, field types, memory layout, element) executions of a nonlinearity module judged against its documented per-field function and against the group action"
ASSUMPTIONS = ["which gate/bias belongs to which field is not prescribed by the documentation: any one-to-one assignment is accepted",
               "induced gates use quotient fields of the same subgroup as the gated fields (documented requirement)"]

SPS = [("triv",), ("flip", 0.), ("flip", np.pi / 4), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 6), ("rot", 8), ("rot", -1, 3),
       ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", 6, np.pi / 2), ("fliprot", -1, 3, np.pi / 2)] + MORE_SPACES
KINDS = ["pointwise", "relu", "elu", "norm", "induced_norm", "gated1", "gated2", "induced_gated", "concatenated", "vectorfield"]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in KINDS]


FLOOR = [1., False]      # size of the current values, and whether small values may be drawn for the current module


def inputs(rng, shape):
    """values with hostile structure in a random memory layout"""
    b, c, h, w = shape
    x = rng.normal(size=shape) * float(rng.choice([1., 1., 1., 1e-2, 20., 1e3]))
    FLOOR[0] = 1.
    if FLOOR[1] and rng.integers(4) == 0:
        # small but not negligible: judged relatively to the size of the values
        q = float(rng.choice([1e-3, 1e-5, 1e-6])); FLOOR[0] = q
        x = np.sign(rng.normal(size=shape)) * (.3 + np.abs(rng.normal(size=shape))) * q
    if rng.integers(3) == 0: x[rng.random(shape) < .3] = 0.
    if rng.integers(4) == 0: x[:, :, :, 0] = 0.
    if FLOOR[0] == 1. and rng.integers(6) == 0: x = np.round(x)
    t = t32(x)
    lay = ["plain", "channels_last", "hw", "sliced", "step", "flip", "expanded", "bt"][int(rng.integers(8))]
    if lay == "channels_last": t = t.contiguous(memory_format=torch.channels_last)
    elif lay == "hw": t = t.permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
    elif lay == "sliced":
        big = torch.randn(b + 1, c + 3, h + 2, w + 1); big[1:, 2:2 + c, 1:1 + h, :w] = t; t = big[1:, 2:2 + c, 1:1 + h, :w]
    elif lay == "step":
        big = torch.randn(b, 2 * c, h, 2 * w); big[:, ::2, :, ::2] = t; t = big[:, ::2, :, ::2]
    elif lay == "expanded": t = t[:1].expand(b, c, h, w)
    elif lay == "bt": t = t.permute(1, 0, 2, 3).contiguous().permute(1, 0, 2, 3)
    return t, lay


def types(mon, sp, s, need, n=None, maxsize=18, kinds=None):
    rng = mon.rng
    pl = pool_for(rng, sp, s, n=16, need=need, maxsize=12, kinds=kinds)
    if not pl: return None
    return draw(rng, pl, n or int(rng.integers(1, 7)), maxsize=maxsize, sp=sp, s=s)


def match(outs, cands, tol):
    """injective assignment of outputs to candidates (bipartite matching); returns None if impossible"""
    ok = [[k for k, c in enumerate(cands) if c is not None and c[i] is not None and np.max(np.abs(outs[i] - c[i]), initial=0.) <= tol(c[i])] for i in range(len(outs))]
    owner = {}

    def aug(i, seen):
        for k in ok[i]:
            if k in seen: continue
            seen.add(k)
            if k not in owner or aug(owner[k], seen):
                owner[k] = i
                return True
        return False
    for i in range(len(outs)):
        if not aug(i, set()): return None
    return {i: k for k, i in owner.items()}


def tol(c):
    return 3e-5 * (FLOOR[0] + np.max(np.abs(c), initial=0.))


def sigmoid(z):
    return .5 * (1 + np.tanh(z / 2))


def f_norm(name):
    return {"n_relu": lambda z: np.maximum(z, 0), "n_sigmoid": sigmoid, "squash": lambda z: z / (1 + z)}[name]


def norm_ref(x, k, name, bias):
    """x: (b, c, h, w); sub-fields of k channels"""
    b, c, h, w = x.shape
    v = x.reshape(b, c // k, k, h, w)
    n = np.sqrt((v ** 2).sum(2, keepdims=True))
    f = f_norm(name)(n - bias)
    m = np.where(n > 1e-9, f / np.where(n > 1e-9, n, 1), 0.)
    return (v * m).reshape(x.shape)


def sub(r, what):
    return [int(q.split("_")[-1]) for q in r.supported_nonlinearities if q.startswith(what)]


def commute(mon, fn, tins, tout_rho, xs, ctx, sp, n=5):
    """fn on channel-transformed inputs equals the transformed output"""
    gs = space_gspec(sp)
    y = npy(fn([GeometricTensor(t32(x), t.ft) for x, t in zip(xs, tins)]).tensor)
    for e in sample_elements(gs, mon.rng, n):
        ye = npy(fn([GeometricTensor(t32(t.channel(x, e)), t.ft) for x, t in zip(xs, tins)]).tensor)
        want = np.einsum("oi,bi...->bo...", tout_rho(e), y)
        mon.close(ye, want, "equivariance", "f(g x) != g f(x)", atol=5e-5 * (FLOOR[0] + np.abs(want).max(initial=0.)), e=e, **ctx)
        mon.seen("element", sp, ctx["module"], str(e), ctx["types"])


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]
    gs = space_gspec(sp); g = s.fibergroup
    for _ in range(8 if mon.tier == "quick" else 60):
        shape = (int(rng.integers(1, 4)), None, int(rng.integers(1, 6)), int(rng.integers(1, 6)))
        if rng.integers(8) == 0: shape = (int(rng.integers(1, 6)), None, int(rng.integers(9, 20)), int(rng.integers(9, 20)))
        q = bulk(rng)
        if q: shape = (q[0], None) + q[1:]
        S = lambda c: (shape[0], c, shape[2], shape[3])
        ctx = {"module": k, "space": sp}
        FLOOR[:] = [1., k not in ("pointwise", "elu", "concat", "concatenated")]
        if k in ("pointwise", "relu", "elu"):
            sc = types(mon, sp, s, has("pointwise"))
            if not sc: return
            t = Ty(sp, s, sc); ctx["types"] = sc
            x, lay = inputs(rng, S(t.size)); xn = npy(x)
            relu = lambda z: np.maximum(z, 0)
            if k == "relu":
                inp = bool(rng.integers(2)) and lay != "expanded"
                m = live(rng, enn.ReLU(t.ft, inplace=inp)); ref = relu; ctx["options"] = inp
            elif k == "elu":
                inp = bool(rng.integers(2)) and lay != "expanded"; a = float(rng.choice([1., 0.3, 2.]))
                m = live(rng, enn.ELU(t.ft, alpha=a, inplace=inp)); ctx["options"] = (a, inp)
                ref = lambda z: np.where(z > 0, z, a * np.expm1(np.minimum(z, 0)))
            else:
                fn = str(rng.choice(["p_relu", "p_elu", "p_sigmoid", "p_tanh"])); ctx["options"] = fn
                m = live(rng, enn.PointwiseNonLinearity(t.ft, function=fn))
                ref = {"p_relu": relu, "p_elu": lambda z: np.where(z > 0, z, np.expm1(np.minimum(z, 0))), "p_sigmoid": sigmoid, "p_tanh": np.tanh}[fn]
                inp = False
            x = ask_grad(rng, x); y = m(GeometricTensor(x, t.ft))
            mon.close(npy(y.tensor), ref(xn), "function", atol=tol(xn), layout=lay, **ctx)
            if not inp: mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
            mon.check(y.type == m.out_type == t.ft, "out-type", **ctx)
            commute(mon, lambda a: m(a[0]), [t], t.rho, [xn], ctx, sp)
        elif k == "norm":
            sc = types(mon, sp, s, has("norm"))
            if not sc: return
            t = Ty(sp, s, sc)
            fn = str(rng.choice(["n_relu", "n_sigmoid", "squash"])); bias = fn != "squash" and bool(rng.integers(4))
            m = live(rng, enn.NormNonLinearity(t.ft, function=fn, bias=bias))
            ctx.update(types=sc, options=(fn, bias))
            x, lay = inputs(rng, S(t.size)); xn = npy(x)
            bs = [0.] * len(sc)
            if bias:
                mon.check(m.log_bias.numel() == len(sc), "parameter-count", **ctx)
                with torch.no_grad(): m.log_bias.copy_(t32(rng.normal(size=m.log_bias.shape) * (0.3 + .7 * rng.random())))
                bs = np.exp(npy(m.log_bias).reshape(-1))
            judge_bias(mon, m, t, x, xn, bs, lambda v, i, b: norm_ref(v, t.sizes[i], fn, b), bias, lay, ctx)
            commute(mon, lambda a: m(a[0]), [t], t.rho, [xn], ctx, sp)
        elif k == "induced_norm":
            sc = types(mon, sp, s, lambda r: len(sub(r, "induced_norm")) == 1, kinds=["quotient", "regular", "induced", "induced", "induced", "irrep"])
            if not sc: return
            t = Ty(sp, s, sc)
            fn = str(rng.choice(["n_relu", "n_sigmoid", "squash"])); bias = bool(rng.integers(4)) and fn != "squash"
            m = live(rng, enn.InducedNormNonLinearity(t.ft, function=fn, bias=bias))
            ctx.update(types=sc, options=(fn, bias))
            x, lay = inputs(rng, S(t.size)); xn = npy(x)
            bs = [0.] * len(sc)
            if bias:
                with torch.no_grad(): m.log_bias.copy_(t32(rng.normal(size=m.log_bias.shape) * .7))
                bs = np.exp(npy(m.log_bias).reshape(-1))
            judge_bias(mon, m, t, x, xn, bs, lambda v, i, b: norm_ref(v, sub(t.reps[i], "induced_norm")[0], fn, b), bias, lay, ctx)
            commute(mon, lambda a: m(a[0]), [t], t.rho, [xn], ctx, sp)
        elif k in ("gated1", "induced_gated"):
            n = int(rng.integers(1, 5))
            if k == "gated1":
                gated = types(mon, sp, s, has("gated"), n=n); gate = ("trivial",); q = 1
                subs = lambda r: r.size
            else:
                # one subgroup; quotient gates, gated fields induced from that subgroup
                if gs[0] not in ("C", "D"): return
                sgs = [i for i in subgroup_ids(gs) if (gs[1] * (2 if gs[0] == "D" else 1)) // sub_order(gs, i) <= 6]
                sid = sgs[int(rng.integers(len(sgs)))]
                gate = ("quotient", sid)
                rg = build_rep(g, gs, gate); q = rg.size
                if "induced_gate" not in rg.supported_nonlinearities: continue
                pl = [("induced", sid, i) for i in irrep_ids(subgroup_spec(gs, sid))]
                pl = [p for p in pl if len(sub(build_rep(g, gs, p), "induced_gated")) == 1]
                if not pl: continue
                gated = draw(rng, pl, n, maxsize=30, sp=sp, s=s)
                subs = lambda r: sub(r, "induced_gated")[0]
            if not gated: return
            n = len(gated)
            drop = bool(rng.integers(2))
            if rng.integers(3) == 0:
                gl = None; lab = ["gate"] * n + ["gated"] * n
            else:
                lab = ["gate"] * n + ["gated"] * n
                rng.shuffle(lab); gl = list(lab)
            it = iter(gated)
            sc = [gate if l == "gate" else next(it) for l in lab]
            t = Ty(sp, s, sc)
            ctx.update(types=sc, options=(gl, drop))
            cls = enn.GatedNonLinearity1 if k == "gated1" else enn.InducedGatedNonLinearity1
            m = live(rng, cls(t.ft, gates=gl, drop_gates=drop))
            randomize(m, rng)
            x, lay = inputs(rng, S(t.size)); xn = npy(x)
            x = ask_grad(rng, x); y = m(GeometricTensor(x, t.ft))
            osc = [a for a, l in zip(sc, lab) if l == "gated" or not drop]
            to = Ty(sp, s, osc)
            mon.check(m.out_type == to.ft and y.type == to.ft, "out-type", **ctx)
            judge_gates(mon, npy(y.tensor), xn, t, to, lab, drop, npy(m.bias).reshape(-1), q, subs, lay, ctx)
            mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
            commute(mon, lambda a: m(a[0]), [t], to.rho, [xn], ctx, sp)
        elif k == "gated2":
            sc = types(mon, sp, s, has("gated"))
            if not sc: return
            t = Ty(sp, s, sc); tg = Ty(sp, s, [("trivial",)] * len(sc))
            m = live(rng, enn.GatedNonLinearity2((tg.ft, t.ft))); randomize(m, rng)
            x, lay = inputs(rng, S(t.size)); z, lay2 = inputs(rng, S(tg.size))
            ctx.update(types=sc, options=())
            x, z = ask_grad(rng, x), ask_grad(rng, z); y = m(GeometricTensor(z, tg.ft), GeometricTensor(x, t.ft))
            mon.check(m.out_type == t.ft and y.type == t.ft, "out-type", **ctx)
            xn = np.concatenate([npy(z), npy(x)], 1)
            tt = Ty(sp, s, [("trivial",)] * len(sc) + sc)
            judge_gates(mon, npy(y.tensor), xn, tt, t, ["gate"] * len(sc) + ["gated"] * len(sc), True, npy(m.bias).reshape(-1), 1, lambda r: r.size, (lay, lay2), ctx)
            commute(mon, lambda a: m(*a), [tg, t], t.rho, [npy(z), npy(x)], ctx, sp)
        elif k == "concatenated":
            if gs[0] not in ("C", "D"): return
            sc = types(mon, sp, s, has("concatenated"))
            if not sc: return
            t = Ty(sp, s, sc)
            fn = str(rng.choice(["c_relu", "c_sigmoid", "c_tanh"]))
            for attempt in range(6):      # the library runs a randomised optimiser; only a persistent failure counts
                try:
                    m = live(rng, enn.ConcatenatedNonLinearity(t.ft, function=fn)); break
                except (ZeroDivisionError, AssertionError):
                    if attempt == 5: raise
            ctx.update(types=sc, options=fn)
            f = {"c_relu": lambda v: np.maximum(v, 0), "c_sigmoid": sigmoid, "c_tanh": np.tanh}[fn]
            x, lay = inputs(rng, S(t.size)); xn = npy(x)
            x = ask_grad(rng, x); y = m(GeometricTensor(x, t.ft))
            want = np.stack([f(xn), f(-xn)], 2).reshape(xn.shape[0], -1, *xn.shape[2:])
            mon.close(npy(y.tensor), want, "function", atol=tol(want), layout=lay, **ctx)
            mon.check(y.type == m.out_type and len(m.out_type) == len(sc) and [r.size for r in m.out_type] == [2 * z for z in t.sizes], "out-type", **ctx)

            def rho(e):
                r = np.round(t.rho(e)); P = np.maximum(r, 0); N = np.maximum(-r, 0)
                out = np.zeros((2 * r.shape[0],) * 2)
                out[::2, ::2] = P; out[1::2, 1::2] = P; out[::2, 1::2] = N; out[1::2, ::2] = N
                return out
            for e in sample_elements(gs, rng, 6):
                mon.close(block_diag([np.asarray(r(e)) for r in m.out_type.representations]), rho(e), "out-representation", atol=1e-6, e=e, **ctx)
            for r, c in {r.name: (r, c) for r, c in zip(m.out_type.representations, sc)}.values():
                c06.judge(mon, gs, g, ("concatenated", c), r)
            commute(mon, lambda a: m(a[0]), [t], rho, [xn], ctx, sp)
        elif k == "vectorfield":
            if sp[0] != "rot" or sp[1] < 2: return
            t = Ty(sp, s, [("regular",)] * int(rng.integers(1, 5)))
            m = live(rng, enn.VectorFieldNonLinearity(t.ft))
            to = Ty(sp, s, [("irrep", (1,))] * len(t.specs))
            ctx.update(types=len(t.specs), options=())
            x, lay = inputs(rng, S(t.size)); xn = npy(x)
            # ties have no unique arg max: keep a margin
            xn = xn + 0.05 * rng.permuted(np.broadcast_to(np.arange(t.size)[None, :, None, None], xn.shape), axis=1)
            x = t32(xn); xn = npy(x)
            x = ask_grad(rng, x); y = m(GeometricTensor(x, t.ft))
            N = sp[1]; v = xn.reshape(xn.shape[0], -1, N, *xn.shape[2:])
            top = np.sort(v, 2); safe = (top[:, :, -1] - top[:, :, -2] > 1e-4)
            a = v.argmax(2) * TAU / N; l = np.maximum(v.max(2), 0)
            want = np.stack([l * np.cos(a)] + ([l * np.sin(a)] if N > 2 else []), 2)
            got = npy(y.tensor)
            mon.check(y.type == to.ft and m.out_type == to.ft and got.shape == S(to.size), "out-type", **ctx)
            got = got.reshape(want.shape)
            mon.close(got * safe[:, :, None], want * safe[:, :, None], "function", atol=tol(want), **ctx)
            if safe.all(): commute(mon, lambda a: m(a[0]), [t], to.rho, [xn], ctx, sp)
        mon.seen("module", k, sp, repr(ctx["types"]), repr(ctx["options"]))
        mon.sample(dict(module=k, space=str(sp), types=str(ctx["types"]), options=str(ctx["options"])))


def judge_bias(mon, m, t, x, xn, bs, ref, hasb, lay, ctx):
    x = ask_grad(mon.rng, x); y = m(GeometricTensor(x, t.ft))
    mon.check(y.type == m.out_type == t.ft, "out-type", **ctx)
    yn = npy(y.tensor)
    mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
    if not mon.check(yn.shape == xn.shape and np.isfinite(yn).all(), "shape", layout=lay, **ctx): return
    n = len(t.specs)
    outs = [yn[:, t.sl(i)] for i in range(n)]
    if not hasb:
        for i in range(n):
            w = ref(xn[:, t.sl(i)], i, 0.)
            mon.close(outs[i], w, "function", "field %d" % i, atol=max(tol(xn), tol(w)), layout=lay, **ctx)
        return
    cands = [[ref(xn[:, t.sl(i)], i, bs[k]) for i in range(n)] for k in range(n)]
    mon.check(match(outs, cands, tol) is not None, "function", "no one-to-one assignment of biases to fields reproduces the output", layout=lay, **ctx)


def judge_gates(mon, yn, xn, t, to, lab, drop, bias, q, subs, lay, ctx):
    gi = [i for i, l in enumerate(lab) if l == "gate"]; fi = [i for i, l in enumerate(lab) if l == "gated"]
    B, _, H, W = xn.shape
    if not mon.check(yn.shape == (B, to.size, H, W) and np.isfinite(yn).all() and len(bias) == len(gi), "shape", layout=lay, **ctx): return
    n = len(fi)
    oi = list(range(n)) if drop else fi

    def gated(i, j, kb):
        r = t.reps[i]; kk = subs(r)
        G = sigmoid(xn[:, t.sl(gi[j])] - bias[kb])       # B q H W
        v = xn[:, t.sl(i)].reshape(B, -1, kk, H, W)
        if v.shape[1] != q: return None
        return (v * G[:, :, None]).reshape(B, -1, H, W)
    cands = [[gated(i, j, j) for i in fi] for j in range(n)]
    outs = [yn[:, to.sl(o)] for o in oi]
    mt = match(outs, cands, tol)
    mon.check(mt is not None, "function", "no one-to-one assignment of gates to gated fields reproduces the output", layout=lay, **ctx)
    if not drop:
        for j, i in enumerate(gi):
            mon.close(yn[:, to.sl(i)], sigmoid(xn[:, t.sl(i)] - bias[j]), "kept-gate", "gate %d" % j, atol=3e-5, layout=lay, **ctx)
