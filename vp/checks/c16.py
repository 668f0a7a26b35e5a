from ..zoo import *
import copy

RULE = "distinct (module, options, space, field types, history prefix) executions of a batch-normalisation layer judged against an independent model of its statistics, plus distinct equivariance tests"
ASSUMPTIONS = ["norm and induced-norm variants normalise with the running second moment updated by the batch (also in training mode), inner and generic variants with the statistics of the batch",
               "which entry of a parameter or buffer belongs to which field is not prescribed: any one-to-one assignment is accepted"]

SPS = [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 6), ("rot", -1, 3),
       ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", -1, 3, np.pi / 2)] + MORE_SPACES
KINDS = ["inner", "norm", "gnorm", "induced"]


def units(tier, rng):
    return [{"sp": sp, "k": k, "n": n} for sp in SPS for k in KINDS for n in range(6 if tier == "quick" else 20)]


class Model:
    """the documented statistics, in double precision"""

    def __init__(self, k, t, eps, momentum, track=True):
        self.k, self.t, self.eps, self.mom, self.track = k, t, eps, momentum, track
        self.reset()

    def reset(self):
        self.n = 0; self.xm = 0.
        self.var = self.mean = None
        if self.k == "gnorm":
            self.var = [np.ones(len(r.irreps)) for r in self.t.reps]
            self.mean = [np.zeros(len(r.irreps)) for r in self.t.reps]
        else:
            self.var = [1.] * len(self.t.reps); self.mean = [0.] * len(self.t.reps)

    def pieces(self, i):
        """(slices of the irreps in the decomposed basis, trivial mask)"""
        r = self.t.reps[i]; p = 0; out = []
        for name in r.irreps:
            ir = r.group.irreps[name]
            out.append((slice(p, p + ir.size), ir.is_trivial())); p += ir.size
        return out

    def stats(self, x, i):
        v = x[:, self.t.sl(i)]
        N = v.shape[0] * v.shape[2] * v.shape[3]
        if self.k == "inner":
            return v.mean(), v.var(), v.var() * v.size / max(v.size - 1, 1)
        if self.k == "norm":
            q = (v ** 2).sum(1).mean() / v.shape[1] * (N / (N - 1) if N > 1 else 1)
            return 0., q, q
        if self.k == "induced":
            s = [int(q.split("_")[-1]) for q in self.t.reps[i].supported_nonlinearities if q.startswith("induced_norm")][0]
            M = N * v.shape[1] // s
            q = (v ** 2).mean() * (M / (M - 1) if M > 1 else 1)
            return 0., q, q
        d = np.einsum("ds,bsxy->bdxy", np.linalg.inv(self.t.reps[i].change_of_basis), v)
        ms, vs = [], []
        for sl, triv in self.pieces(i):
            z = d[:, sl]
            m = z.mean() if triv else 0.
            ms.append(m); vs.append((((z - m) ** 2).mean()) * (N / (N - 1) if N > 1 else 1))
        return np.array(ms), np.array(vs), np.array(vs)

    def train(self, x):
        """returns the normalisation (mean, var) per field and updates the running statistics"""
        self.n += 1
        f = 1. / self.n if self.mom is None else self.mom
        out = []
        for i in range(len(self.t.reps)):
            m, used, run = self.stats(x, i)
            self.mean[i] = (1 - f) * self.mean[i] + f * m
            self.var[i] = (1 - f) * self.var[i] + f * run
            out.append((m, used) if self.k in ("inner", "gnorm") else (0., self.var[i]))
        return out

    def evaluate(self, x):
        if not self.track: return [self.stats(x, i)[:2] for i in range(len(self.t.reps))]
        return [(self.mean[i], self.var[i]) for i in range(len(self.t.reps))]

    def apply(self, x, st):
        y = np.empty_like(x)
        for i in range(len(self.t.reps)):
            v = x[:, self.t.sl(i)]; m, var = st[i]
            if self.k == "gnorm":
                r = self.t.reps[i]
                d = np.einsum("ds,bsxy->bdxy", np.linalg.inv(r.change_of_basis), v)
                for j, (sl, triv) in enumerate(self.pieces(i)):
                    d[:, sl] = (d[:, sl] - m[j]) / np.sqrt(var[j] + self.eps)
                y[:, self.t.sl(i)] = np.einsum("ds,bsxy->bdxy", r.change_of_basis, d)
            else:
                y[:, self.t.sl(i)] = (v - m) / np.sqrt(var + self.eps)
        return y


def build(rng, k, sp, s, t):
    eps = float(rng.choice([1e-5, 1e-3, 1e-1])); mom = [0.1, 0.5, 0.02, 1.0, None][int(rng.integers(5))]
    kw = dict(eps=eps, momentum=mom, affine=bool(rng.integers(4)))
    track = True
    if k == "inner" and rng.integers(4) == 0: track = kw["track_running_stats"] = False
    cls = {"inner": enn.InnerBatchNorm, "norm": enn.NormBatchNorm, "gnorm": enn.GNormBatchNorm, "induced": enn.InducedNormBatchNorm}[k]
    return cls(t.ft, **kw), kw, Model(k, t, eps, mom, track)


def batch(rng, t, big=False):
    b, h, w = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(2, 6))
    if rng.integers(8) == 0: b, h, w = [(3, 1, 1), (1, 4, 1), (2, 13, 12), (9, 2, 1), (2, 1, 1)][int(rng.integers(5))]
    b, h, w = bulk(rng, 16) or (b, h, w)
    x = rng.normal(size=(b, t.size, h, w)) * np.exp(rng.normal(size=(1, t.size, 1, 1))) * float(rng.choice([1., 1., .1, 10.]))
    x += rng.normal(size=(1, t.size, 1, 1)) * float(rng.choice([0, 1., 3.]))
    if rng.integers(8) == 0: x *= rng.random(x.shape) < .3
    if rng.integers(12) == 0: x[0] = 0.
    if rng.integers(20) == 0: x *= float(rng.choice([0., 1e-2]))
    if rng.integers(6) == 0:
        # a large offset along the invariant components
        x += float(rng.choice([30., 300.])) * invariant(t)[None, :, None, None]
    return t32(x)


def invariant(t):
    out = np.zeros(t.size)
    for i, r in enumerate(t.reps):
        p = 0
        for name in r.irreps:
            ir = r.group.irreps[name]
            if ir.is_trivial(): out[t.sl(i)] += r.change_of_basis[:, p]
            p += ir.size
    return out


def lay(rng, x):
    c = int(rng.integers(5))
    if c == 0: return x.contiguous(memory_format=torch.channels_last)
    if c == 1: return x.permute(1, 0, 2, 3).contiguous().permute(1, 0, 2, 3)
    return x


def stat_values(m, what):
    return np.sort(np.concatenate([npy(b).reshape(-1) for n, b in m.named_buffers() if n.split(".")[-1].endswith("running_" + what)] or [np.zeros(0)]))


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]
    need = {"inner": has("pointwise"), "norm": lambda r: has("norm")(r) and nontrivial(r), "gnorm": None,
            "induced": lambda r: nontrivial(r) and sum(q.startswith("induced_norm") for q in r.supported_nonlinearities) == 1}[k]
    kinds = ["induced", "induced", "irrep"] if k == "induced" else None
    for rep in range(5 if mon.tier == "quick" else 20):
        pl = pool_for(rng, sp, s, n=16, need=need, maxsize=12, kinds=kinds)
        if not pl: return
        sc = draw(rng, pl, int(rng.integers(1, 7)), maxsize=18, sp=sp, s=s)
        t = Ty(sp, s, sc)
        m, kw, model = build(rng, k, sp, s, t)
        ctx = {"module": k, "space": sp, "types": sc, "options": kw}
        hist = []
        for step in range(7 if mon.tier == "quick" else 15):
            op = ["train", "train", "train", "eval", "eval", "reset_stats", "reset_params", "state"][int(rng.integers(8))]
            hist.append(op); ctx["history"] = " ".join(hist)
            if op in ("train", "eval"):
                x = lay(rng, batch(rng, t)); xn = npy(x)
                m.train(op == "train")
                torch.set_grad_enabled(bool(rng.integers(3))); m.requires_grad_(bool(rng.integers(4))); x = ask_grad(rng, x)
                with mon.guard("accepts", **ctx):
                    y = m(GeometricTensor(x, t.ft))
                    st = model.train(xn) if op == "train" else model.evaluate(xn)
                    want = model.apply(xn, st)
                    if op == "train": model.xm = max(model.xm, np.abs(xn).max())
                    judge(mon, y, want, m, t, xn, st, model, ctx)
                    mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
                    mon.seen(op, k, sp, repr(sc), repr(kw), ctx["history"])
            elif op == "reset_stats":
                m.reset_running_stats(); model.reset()
            elif op == "reset_params":
                with torch.no_grad():
                    m.requires_grad_(True)
                    for p in m.parameters():
                        if p.requires_grad: p.add_(1.7)
                m.reset_parameters(); model.reset()
                for p in m.parameters():
                    if p.requires_grad: p.data  # values judged by the next forward
            elif op == "state":
                m2, _, _ = type(m)(t.ft, **kw), None, None
                m2.load_state_dict(m.state_dict()); m = m2
            stats(mon, m, model, ctx)
        m.requires_grad_(True)
        affine(mon, m, model, t, ctx, rng)
        equivariance(mon, m, t, ctx, rng, sp)
        mon.sample(dict(module=k, space=str(sp), types=str(sc), history=ctx["history"]))


def judge(mon, y, want, m, t, xn, st, model, ctx):
    mon.check(y.type == t.ft and m.out_type == t.ft, "out-type", **ctx)
    # single precision rounding of large offsets (of this batch, or of those the running statistics come from)
    # is amplified by the normalisation with a small variance
    amp = max(1., np.abs(want).max())
    v = min(np.min(np.atleast_1d(v)) for _, v in st)
    h = max(np.abs(xn).max(), model.xm); e = 4e-7 * h
    tol = 1e-4 * amp + 8e-6 * h / np.sqrt(v + model.eps) + amp * (np.sqrt(v) * e + e * e) / (v + model.eps)
    mon.close(npy(y.tensor), want, "function", "differs from the documented normalisation", atol=tol, **ctx)


def stats(mon, m, model, ctx):
    if not model.track: return
    want = np.sort(np.concatenate([np.atleast_1d(v) for v in model.var]))
    mon.close(stat_values(m, "var"), want, "running-var", "running variances", atol=1e-4 * (1 + np.abs(want)).max(), **ctx)
    if model.k == "inner":
        want = np.sort(np.array(model.mean)); mon.close(stat_values(m, "mean"), want, "running-mean", atol=1e-4 * (1 + np.abs(want).max()), **ctx)
    if model.k == "gnorm":
        want = np.sort(np.concatenate([[a for a, (sl, triv) in zip(mm, model.pieces(i)) if triv] for i, mm in enumerate(model.mean)]))
        mon.close(stat_values(m, "mean"), want, "running-mean", atol=1e-4 * (1 + np.abs(want).max(initial=0.)), **ctx)
    mon.seen("running", repr(ctx["types"]), ctx["history"])


def affine(mon, m, model, t, ctx, rng):
    """each field (or irrep of a field) is scaled by its own weight and shifted by its own bias"""
    if not ctx["options"]["affine"]: return
    m.reset_running_stats(); model.reset()
    ws = [p for n, p in m.named_parameters() if p.requires_grad and n.endswith("weight")]
    bs = [p for n, p in m.named_parameters() if p.requires_grad and n.endswith("bias")]
    nsc = sum(len(r.irreps) for r in t.reps) if model.k == "gnorm" else len(t.reps)
    nsh = {"gnorm": sum(tr for i in range(len(t.reps)) for _, tr in model.pieces(i)), "inner": len(t.reps)}.get(model.k, 0)
    mon.check(sum(p.numel() for p in ws) == nsc and sum(p.numel() for p in bs) == nsh, "parameter-count", **ctx)
    wv = rng.permutation(nsc) * .5 + .6 + rng.uniform(0, .2, nsc); bv = rng.permutation(nsh) * .7 + rng.uniform(0, .2, nsh) - 1
    with torch.no_grad():
        i = 0
        for p in ws: p.copy_(t32(wv[i:i + p.numel()].reshape(p.shape))); i += p.numel()
        i = 0
        for p in bs: p.copy_(t32(bv[i:i + p.numel()].reshape(p.shape))); i += p.numel()
    for mode in ("eval", "train"):
        x = t32(rng.normal(size=(3, t.size, 4, 5)))
        xn = npy(x)
        m.train(mode == "train")
        y = npy(m(GeometricTensor(x, t.ft)).tensor)
        st = model.train(xn) if mode == "train" else model.evaluate(xn)
        base = model.apply(xn, st)
        gw, gb = [], []
        for i, r in enumerate(t.reps):
            if model.k == "gnorm":
                ci = np.linalg.inv(r.change_of_basis)
                a = np.einsum("ds,bsxy->bdxy", ci, base[:, t.sl(i)]); c = np.einsum("ds,bsxy->bdxy", ci, y[:, t.sl(i)])
                prs = [(a[:, sl], c[:, sl], tr) for sl, tr in model.pieces(i)]
            else:
                prs = [(base[:, t.sl(i)], y[:, t.sl(i)], model.k == "inner")]
            for a, c, sh in prs:
                if sh:
                    A = np.stack([a.reshape(-1), np.ones(a.size)], 1)
                    sol = np.linalg.lstsq(A, c.reshape(-1), rcond=None)[0]
                    res = A @ sol - c.reshape(-1); gw.append(sol[0]); gb.append(sol[1])
                else:
                    w = (a * c).sum() / (a * a).sum(); res = w * a - c; gw.append(w)
                mon.check(np.abs(res).max() <= 2e-3 * (1 + np.abs(c).max()), "affine", "field %d is not an affine function of its normalisation (residual %g)" % (i, np.abs(res).max()), mode=mode, **ctx)
        mon.close(np.sort(gw), np.sort(wv), "affine-weight", "scales of the fields are not the weights", atol=5e-3 * (1 + wv.max()), mode=mode, **ctx)
        if nsh: mon.close(np.sort(gb), np.sort(bv), "affine-bias", "shifts of the fields are not the biases", atol=5e-3 * (1 + np.abs(bv).max()), mode=mode, **ctx)
        mon.seen("affine", model.k, mode, repr(ctx["types"]))


def equivariance(mon, m, t, ctx, rng, sp):
    gs = space_gspec(sp)
    for mode in (True, False):
        x = rng.normal(size=(4, t.size, 3, 5)) + rng.normal(size=(1, t.size, 1, 1))
        els = sample_elements(gs, rng, 6)
        for trial in range(4):
            same = trial % 2
            es = [els[int(rng.integers(len(els)))]] * 4 if same else [els[int(rng.integers(len(els)))] for _ in range(4)]
            a, b = copy.deepcopy(m), copy.deepcopy(m)
            a.train(mode); b.train(mode)
            act = lambda v: np.stack([t.channel(v[i:i + 1], e)[0] for i, e in enumerate(es)])
            y = npy(a(GeometricTensor(t32(x), t.ft)).tensor)
            z = npy(b(GeometricTensor(t32(act(x)), t.ft)).tensor)
            mon.close(z, act(y), "equivariance", "does not commute with %s" % (es,), atol=2e-4 * (1 + np.abs(y).max()), mode=mode, **ctx)
            mon.close(stat_values(a, "var"), stat_values(b, "var"), "equivariance-stats", atol=1e-3 * (1 + stat_values(a, "var").max(initial=0.)), **ctx)
            mon.seen("equivariance", ctx["module"], sp, mode, str(es))
