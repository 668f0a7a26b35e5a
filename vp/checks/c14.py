from ..zoo import *
import copy, io

RULE = "distinct (space, model, operation history prefix) evaluation-mode executions whose convolutional layers were observed by forward hooks and compared with the convolution their current parameters define"
ASSUMPTIONS = ["state is saved in evaluation mode (documented protocol) and loaded into a freshly built model before or after it was switched to evaluation mode",
               "convolutional layers must be re-entered (train then eval) after parameters change outside training, as documented"]

LAYERS = (enn.R2Conv, enn.R2ConvTransposed, enn.R2Diffop)
SPS = [("triv",), ("flip", np.pi / 4), ("rot", 4), ("rot", 6), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 4, 0.), ("fliprot", 3, 0.7), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[1:3]


def units(tier, rng):
    return [{"sp": sp, "n": i} for sp in SPS for i in range(8 if tier == "quick" else 60)] + [{"sp": sp, "grouped": g} for sp in SPS[1:8:2] for g in ("conv", "convT", "diffop")]


class Watch:
    """forward hooks on every convolutional layer: judges each evaluation-mode execution online"""

    def __init__(self, mon, model, ctx):
        self.mon, self.ctx, self.handles, self.n = mon, ctx, [], 0
        for m in model.modules():
            if isinstance(m, LAYERS): self.handles.append(m.register_forward_hook(self.hook))

    def hook(self, m, inp, out):
        if m.training: return
        x = npy(inp[0].tensor)
        with torch.no_grad():
            w = m.basisexpansion(m.weights)
            w = npy(w.reshape(w.shape[0], w.shape[1], m.kernel_size, m.kernel_size))
            b = None
            if m.bias is not None: b = npy(m.bias_expansion @ m.bias)
        if isinstance(m, enn.R2ConvTransposed):
            y = ref_conv_t(x, w.transpose(1, 0, 2, 3), b, m.stride, m.padding, m.output_padding, m.dilation, m.groups)
        else:
            y = ref_conv(x, w, b, m.stride, m.padding, m.dilation, m.groups, m.padding_mode)
        self.n += 1
        self.mon.close(npy(out.tensor), y, "eval-function", "evaluation output differs from what the current parameters define", atol=1e-4 * (1 + np.abs(y).max()), layer=type(m).__name__, **self.ctx)

    def off(self):
        for h in self.handles: h.remove()


def params(model):
    d = {k: v.detach().clone() for k, v in model.named_parameters(remove_duplicate=False)}
    for k, v in model.named_buffers(remove_duplicate=False):
        last = k.split(".")[-1]
        if last not in ("filter", "expanded_bias"): d["buf:" + k] = v.detach().clone()
    return d


def same(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng
    for _ in range(40):
        if "grouped" in u:
            t = draw(rng, pool_for(rng, sp, s, maxsize=4), 2, maxsize=4, sp=sp, s=s)
            o = draw(rng, pool_for(rng, sp, s, maxsize=4), 2, maxsize=4, sp=sp, s=s)
            g = int(rng.integers(2, 4))
            desc = {"in": t * g, "ops": [(u["grouped"], dict(out=o * g, cfg=dict(kernel_size=3, padding=1, groups=g)))]}
        else:
            desc = rand_model(rng, sp, s)
        try:
            model = build_model(sp, s, desc)
            break
        except ValueError as e:
            if "basis for the steerable" not in str(e): raise
    else:
        return
    tin = Ty(sp, s, desc["in"])
    ctx = {"space": sp, "desc": desc}
    x = mem(rng, t32(rng.normal(size=(int(rng.integers(1, 4)), tin.size, int(rng.integers(10, 14)), int(rng.integers(10, 14))))))
    f = lambda m: m(GeometricTensor(x, tin.ft)).tensor
    hist = []
    opt = [None]

    def new_opt():
        opt[0] = torch.optim.SGD([p for p in model.parameters() if p.requires_grad], lr=0.05) if rng.integers(2) else torch.optim.Adam([p for p in model.parameters() if p.requires_grad], lr=0.02)
    new_opt()
    saved = None
    steps = 14 if mon.tier == "quick" else 40
    names = ["train_step", "train_step", "eval", "eval", "train", "submode", "save_load", "save_load_fresh", "deepcopy", "perturb", "load_older", "forward_train", "export_free", "eval_nograd", "zero_step", "tune", "tune", "tune", "partial_load", "reinit"]
    for step in range(steps):
        op = names[int(rng.integers(len(names)))]
        if step == steps - 1: op = "eval"
        hist.append(op)
        ctx["history"] = " ".join(hist)
        before = params(model)
        if op == "train_step":
            model.train()
            mon.check(same(before, params(model)), "mode-changes-parameters", "train()", **ctx)
            opt[0].zero_grad()
            y = f(model)
            ((y - t32(rng.normal(size=tuple(y.shape)))) ** 2).mean().backward()
            for n, m in model.named_modules():
                if isinstance(m, LAYERS):
                    mon.check(m.weights.grad is not None and bool(torch.isfinite(m.weights.grad).all()), "gradient", "no gradient for %s" % n, **ctx)
            last = [m for m in model.modules() if isinstance(m, LAYERS)][-1]
            if len(desc["ops"]) == 1:
                mon.check(bool((last.weights.grad != 0).any()), "gradient", "zero gradient", **ctx)
            opt[0].step()
        elif op == "forward_train":
            model.train(); f(model)
        elif op == "zero_step":
            model.train(); opt[0].zero_grad()
        elif op == "train": model.train()
        elif op in ("eval", "eval_nograd"):
            if op == "eval": model.eval()
            else:
                with torch.no_grad(): model.eval()
            mon.check(same(before, params(model)), "mode-changes-parameters", "eval()", **ctx)
        elif op == "submode":
            subs = [m for m in model.modules() if isinstance(m, enn.EquivariantModule)]
            m = subs[int(rng.integers(len(subs)))]
            if rng.integers(2): m.train()
            else: m.eval()
            mon.check(same(before, params(model)), "mode-changes-parameters", "submodule mode", **ctx)
        elif op == "perturb":
            with torch.no_grad():
                for p in model.parameters():
                    if p.requires_grad: p.add_(0.3 * torch.randn_like(p))
            model.train(); model.eval()
        elif op == "tune":
            # only some of the parameters change, through any of the usual ways of changing a parameter
            ps = [(n, p) for n, p in model.named_parameters() if p.requires_grad]
            kind = int(rng.integers(4))
            sub = [(n, p) for n, p in ps if n.split(".")[-1] == "bias"] if kind == 0 else [(n, p) for n, p in ps if n.split(".")[-1] == "weights"] if kind == 1 else [ps[int(rng.integers(len(ps)))]] if kind == 2 else [x for x in ps if rng.integers(2)]
            how = ["optimiser", "inplace", "data", "assign", "copy"][int(rng.integers(5))]
            hist[-1] = "tune:%s:%s" % (["bias", "weights", "one", "some"][kind], how); ctx["history"] = " ".join(hist)
            first = bool(rng.integers(2))
            if rng.integers(2): model.eval()
            if first or how == "optimiser": model.train()
            if sub and how == "optimiser":
                o2 = torch.optim.SGD([p for _, p in sub], lr=.5)
                o2.zero_grad(); y = f(model); (y * t32(rng.normal(size=tuple(y.shape)))).mean().backward(); o2.step()
                mon.check(all(torch.equal(before[n], p) for n, p in model.named_parameters() if n not in dict(sub)), "other-parameters-changed", **ctx)
            for n, p in sub:
                d = 0.3 * torch.randn_like(p)
                if how == "inplace":
                    with torch.no_grad(): p.add_(d)
                elif how == "data": p.data += d
                elif how == "assign": p.data = p.data + d
                elif how == "copy":
                    with torch.no_grad(): p.copy_(p + d)
            model.train(); model.eval()
        elif op == "partial_load":
            # a state dictionary with parameters only, loaded in training mode
            model.train()
            sd = {n: p.detach() + 0.2 * torch.randn_like(p) for n, p in model.named_parameters() if p.requires_grad and rng.integers(2)}
            model.load_state_dict(sd, strict=False)
            now = dict(model.named_parameters())
            mon.check(all(torch.equal(now[n], sd[n] if n in sd else before[n]) for n in now), "partial-load", **ctx)
            model.eval()
        elif op == "reinit":
            model.train()
            for m in model.modules():
                if isinstance(m, LAYERS) and rng.integers(2):
                    with torch.no_grad(): enn.init.generalized_he_init(m.weights.data, m.basisexpansion)
            model.eval()
        elif op == "deepcopy":
            model.eval() if rng.integers(2) else model.train()
            was = model.training
            try:
                m2 = copy.deepcopy(model)
            except RuntimeError as e:
                if was or "deepcopy protocol" not in str(e): raise
                mon.evals += 1
                mon.violation("deepcopy-in-eval", "copy.deepcopy of a model in evaluation mode fails: %s" % e, **ctx)
                model.train()
                m2 = copy.deepcopy(model)
            mon.check(same(params(model), params(m2)), "copy", "deepcopy changed parameters", **ctx)
            m2.eval(); model.eval()
            mon.close(npy(f(m2)), npy(f(model)), "copy-function", atol=1e-6, **ctx)
            with torch.no_grad():
                for p in m2.parameters():
                    if p.requires_grad: p.add_(1.0)
            m2.train(); m2.eval()
            mon.check(same(before, params(model)), "copy-aliases", "changing the copy changed the original", **ctx)
            judged_eval(mon, model, f, ctx)
        elif op in ("save_load", "save_load_fresh"):
            model.eval()
            want = npy(judged_eval(mon, model, f, ctx))
            before = params(model)
            bio = io.BytesIO(); torch.save(model.state_dict(), bio); bio.seek(0)
            mon.check(same(before, params(model)), "saving-changes-parameters", **ctx)
            sd = torch.load(bio)
            saved = (sd, want)
            m2 = build_model(sp, s, desc)
            if op == "save_load": m2.eval()
            with mon.guard("load-rejected", **ctx):
                m2.load_state_dict(sd)
                m2.eval()
                mon.close(npy(judged_eval(mon, m2, f, ctx)), want, "load-function", "a fresh model with the loaded state computes another function", atol=1e-5 * (1 + np.abs(want).max()), **ctx)
                m2.train(); m2.eval()
                mon.close(npy(judged_eval(mon, m2, f, ctx)), want, "load-function", "after re-entering evaluation mode", atol=1e-5 * (1 + np.abs(want).max()), **ctx)
                mon.check(same(before, params(m2)), "load-parameters", **ctx)
                if rng.integers(2):
                    model = m2; new_opt()
        elif op == "load_older" and saved is not None:
            model.eval()
            model.load_state_dict(saved[0])
            mon.close(npy(judged_eval(mon, model, f, ctx)), saved[1], "load-function", "re-loading an older state", atol=1e-5 * (1 + np.abs(saved[1]).max()), **ctx)
        if not model.training and all(not m.training for m in model.modules()):
            y1 = judged_eval(mon, model, f, ctx)
            y2 = f(model)
            mon.close(npy(y1), npy(y2), "eval-deterministic", atol=0, **ctx)
            mon.seen("eval", str(desc), " ".join(hist))
    model.eval()
    judged_eval(mon, model, f, ctx)
    mon.sample({"space": str(sp), "model": [o[0] for o in desc["ops"]], "history": " ".join(hist)})


def judged_eval(mon, model, f, ctx):
    before = params(model)
    w = Watch(mon, model, ctx)
    with torch.set_grad_enabled(bool(mon.rng.integers(2))): y = f(model).detach()
    w.off()
    mon.check(same(before, params(model)), "eval-changes-state", "forward in evaluation mode changed parameters or statistics", **ctx)
    return y
