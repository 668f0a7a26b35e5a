"""Workload generation and reference operations for layers (C12 - C26)"""
from .kern import *
import torch
import torch.nn.functional as TF
import e2cnn.nn as enn
from e2cnn.nn import FieldType, GeometricTensor


class Ty:
    """a field type together with its description and reference action"""
    rename = None   # (representation) -> representation used in its place

    def __init__(self, sp, s, specs, reps=None):
        self.sp, self.s, self.specs = sp, s, [_t(x) for x in specs]
        self.gs = space_gspec(sp)
        memo = {}
        if reps is None and Ty.rename: reps = [memo.setdefault(x, None) or memo.__setitem__(x, Ty.rename(build_rep(s.fibergroup, self.gs, x))) or memo[x] for x in self.specs]
        self.reps = reps or [memo.setdefault(x, None) or memo.__setitem__(x, build_rep(s.fibergroup, self.gs, x)) or memo[x] for x in self.specs]
        self.ft = FieldType(s, list(self.reps))
        self.sizes = [r.size for r in self.reps]
        self.off = np.concatenate([[0], np.cumsum(self.sizes)]).astype(int)
        self.size = int(self.off[-1])

    def rho(self, e):
        g = self.s.fibergroup
        memo = {}
        out = []
        for x, r in zip(self.specs, self.reps):
            if x not in memo: memo[x] = rep_ref(g, self.gs, x, e)
            out.append(memo[x])
        return block_diag(out)

    def sl(self, i):
        return slice(int(self.off[i]), int(self.off[i + 1]))

    def act(self, x, e):
        """full action (pixels + channels) on a numpy array"""
        return field_action(x, self.rho(e), space_planar(self.sp, e))

    def channel(self, x, e):
        return np.einsum("oi,bi...->bo...", self.rho(e), x)

    def __repr__(self):
        return "%s over %s" % (self.specs, self.sp)


def _t(x):
    return tuple(_t(y) for y in x) if isinstance(x, (list, tuple)) else x


LAYER_SPACES = [("triv",), ("flip", 0.), ("flip", np.pi / 2), ("flip", np.pi / 4), ("flip", 3 * np.pi / 4),
                ("rot", 2), ("rot", 4), ("rot", 8), ("rot", 12), ("rot", -1, 2), ("rot", -1, 4), ("rot", 3), ("rot", 6),
                ("fliprot", 2, np.pi / 2), ("fliprot", 2, np.pi / 4), ("fliprot", 3, np.pi / 2), ("fliprot", 4, np.pi / 2),
                ("fliprot", 4, 0.), ("fliprot", 4, np.pi / 8), ("fliprot", 6, np.pi / 2), ("fliprot", 8, np.pi / 2), ("fliprot", 8, np.pi / 4),
                ("fliprot", -1, 2, np.pi / 2), ("fliprot", -1, 3, 0.), ("fliprot", -1, 2, 0.4)]


# orders which are not small, not even, or prime
MORE_SPACES = [("rot", 5), ("rot", 16), ("fliprot", 5, .9), ("fliprot", 8, np.pi / 2)]


def rand_type(rng, sp, s, maxsize=14, nmax=4, kinds=None, repsize=None, pool=None, maxf=3):
    """mixture with repetition and interleaving"""
    gs = space_gspec(sp)
    n = int(rng.integers(1, nmax + 1))
    if maxsize >= 14 and rng.integers(14) == 0: n, maxsize = int(rng.integers(8, 14)), 30
    pool = list(pool) if pool else rep_specs(gs, rng, max(1, int(rng.integers(1, 4))), maxsize=repsize or min(maxsize, 8), maxf=maxf, kinds=kinds)
    pool = [_t(p) for p in pool]
    if rng.integers(3) == 0: pool.append(("trivial",))
    specs, tot = [], 0
    sizes = {}
    for _ in range(n):
        p = pool[int(rng.integers(len(pool)))]
        if p not in sizes: sizes[p] = build_rep(s.fibergroup, gs, p).size
        if tot + sizes[p] > maxsize and specs: continue
        specs.append(p); tot += sizes[p]
    return specs


def t32(x):
    return torch.tensor(np.asarray(x), dtype=torch.float32)


def live(rng, m):
    """a random mode: nothing judged with it may depend on training / evaluation or on whether gradients are recorded"""
    m.train(bool(rng.integers(2))); torch.set_grad_enabled(bool(rng.integers(3)))
    return m


def ask_grad(rng, t):
    """now and then a tensor inside of a graph (same values, may be overwritten)"""
    if rng.integers(3) or not torch.is_grad_enabled(): return t
    return t.clone(memory_format=torch.preserve_format).requires_grad_() * 1


def mem(rng, t):
    """the same values in another memory layout"""
    c = int(rng.integers(7))
    if c == 0: return t.contiguous(memory_format=torch.channels_last)
    if c == 1: return (t * 1.).permute(1, 0, 2, 3).contiguous().permute(1, 0, 2, 3)
    if c == 2: return (t * 1.).permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
    if c == 3:
        b, n, h, w = t.shape; big = torch.full((b, n + 2, h + 1, 2 * w), 9.); big[:, 1:-1, 1:, ::2] = t; return big[:, 1:-1, 1:, ::2]
    return t


def relay(c, t):
    """the same values in layout c, differentiably"""
    if c == 0: return (t * 1.).contiguous(memory_format=torch.channels_last)
    if c == 1: return (t * 1.).permute(1, 0, 2, 3).contiguous().permute(1, 0, 2, 3)
    if c == 2: return (t * 1.).permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
    if c == 3: return torch.cat([t, t * 2.], 1)[:, :t.shape[1]]
    return t * 1.


def npy(t):
    return t.detach().cpu().numpy().astype(np.float64)


# ------------------------------------------------------------------ reference convolutions (plain loops over taps)
def np_pad(x, p, mode):
    ph, pw = p
    m = {"zeros": "constant", "reflect": "reflect", "replicate": "edge", "circular": "wrap"}[mode]
    return np.pad(x, ((0, 0), (0, 0), (ph, ph), (pw, pw)), mode=m)


def pair(p):
    return tuple(p) if isinstance(p, (tuple, list)) else (p, p)


def ref_conv(x, w, b, stride, padding, dilation, groups, mode="zeros"):
    x = np_pad(x, pair(padding), mode)
    B, C, H, W = x.shape
    O, I, kh, kw = w.shape
    Ho = (H - dilation * (kh - 1) - 1) // stride + 1
    Wo = (W - dilation * (kw - 1) - 1) // stride + 1
    y = np.zeros((B, O, Ho, Wo))
    og = O // groups
    for g in range(groups):
        for i in range(kh):
            for j in range(kw):
                xs = x[:, g * I:(g + 1) * I, i * dilation:i * dilation + stride * (Ho - 1) + 1:stride, j * dilation:j * dilation + stride * (Wo - 1) + 1:stride]
                y[:, g * og:(g + 1) * og] += np.einsum("oi,bihw->bohw", w[g * og:(g + 1) * og, :, i, j], xs)
    if b is not None: y += b[None, :, None, None]
    return y


def ref_conv_t(x, w, b, stride, padding, output_padding, dilation, groups):
    """w: (in, out/groups, k, k)"""
    B, C, H, W = x.shape
    I, Og, kh, kw = w.shape
    ph, pw = pair(padding); oph, opw = pair(output_padding)
    Ho = (H - 1) * stride + dilation * (kh - 1) + 1
    Wo = (W - 1) * stride + dilation * (kw - 1) + 1
    y = np.zeros((B, Og * groups, Ho + oph, Wo + opw))
    ig = I // groups
    for g in range(groups):
        for i in range(kh):
            for j in range(kw):
                v = np.einsum("io,bihw->bohw", w[g * ig:(g + 1) * ig, :, i, j], x[:, g * ig:(g + 1) * ig])
                y[:, g * Og:(g + 1) * Og, i * dilation:i * dilation + stride * (H - 1) + 1:stride, j * dilation:j * dilation + stride * (W - 1) + 1:stride] += v
    y = y[:, :, ph:y.shape[2] - ph, pw:y.shape[3] - pw]
    if b is not None: y = y + b[None, :, None, None]
    return y


# ------------------------------------------------------------------ random layers
def rand_conv_config(rng, kind, small=True):
    k = int(rng.choice([1, 2, 3, 3, 3, 4, 5, 5, 6, 7]))
    if rng.integers(25) == 0: k = int(rng.choice([8, 9, 11]))
    c = dict(kernel_size=k, stride=int(rng.choice([1, 1, 2, 3])), dilation=int(rng.choice([1, 1, 1, 2, 3])), bias=bool(rng.integers(4) > 0))
    pad = int(rng.choice([0, 1, 2, (k - 1) // 2 * c["dilation"]]))
    c["padding"] = pad
    if kind != "convT":
        c["padding_mode"] = str(rng.choice(["zeros", "zeros", "zeros", "reflect", "replicate", "circular"]))
    return c


def cut(kind):
    return {"lin2": lambda r: 2 * r, "const2": lambda r: 2, "const1": lambda r: 1, "const0": lambda r: 0, "grow": lambda r: r * r + 1}[kind]


def rand_basis_config(rng, kind, k, dilation):
    """band limit options; returns description dict (json-able) -- see basis_kwargs"""
    d = {}
    if kind == "diffop":
        return d
    r = int(rng.integers(6))
    if r == 0: d["frequencies_cutoff"] = float(rng.choice([-1., -2., -3.]))
    elif r == 1: d["frequencies_cutoff"] = float(rng.choice([0., 0.7, 1.0, 1.5, 2., 3.]))
    elif r == 2: d["fco"] = str(rng.choice(["lin2", "const2", "const1", "const0", "grow"]))
    if rng.integers(3) == 0:
        mr = (k - 1) / 2 * dilation
        n = int(rng.integers(1, 4))
        rings = sorted(set([0.] * int(rng.integers(2)) + [round(float(x), 3) for x in rng.uniform(0, mr + 1e-9, size=n)]))
        if rng.integers(3) == 0: rng.shuffle(rings)        # in any order
        d["rings"] = rings
        if rng.integers(2): d["sigma"] = [round(float(x), 3) for x in rng.uniform(0.2, 1.0, size=len(rings))]
    elif rng.integers(4) == 0:
        d["sigma"] = round(float(rng.uniform(0.3, 0.9)), 3)
    if rng.integers(5) == 0: d["maximum_offset"] = int(rng.integers(0, 3))
    if rng.integers(6) == 0: d["recompute"] = True
    return d


def basis_kwargs(d):
    d = dict(d)
    if "fco" in d: d["frequencies_cutoff"] = cut(d.pop("fco"))
    return d


def make_layer(kind, tin, tout, cfg, bcfg):
    kw = dict(cfg); kw.update(basis_kwargs(bcfg))
    cls = {"conv": enn.R2Conv, "convT": enn.R2ConvTransposed, "diffop": enn.R2Diffop}[kind]
    return cls(tin.ft, tout.ft, **kw)


def randomize(layer, rng):
    with torch.no_grad():
        for p in layer.parameters():
            p.copy_(t32(rng.normal(size=tuple(p.shape))))
