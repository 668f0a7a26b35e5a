from ..mods import *
from collections import OrderedDict

RULE = "distinct (container or structural module, space, field types, labels / permutation / identifier / nesting) executions traced with tagged channels or recording sub-modules"
ASSUMPTIONS = ["labels are strings without '.', which torch does not allow in buffer names", "single precision tensors"]

SPS = [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 6), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, .3), ("fliprot", 4, 0.), ("fliprot", 6, np.pi / 2), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES
KINDS = ["seq", "list", "branch", "merge", "multiple", "reshuffle", "restrict", "disentangle", "identity"]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in KINDS]


class Probe(enn.EquivariantModule):
    """a user-defined equivariant module: scales its input, records what it saw"""

    def __init__(self, tin, tag, log, scale=1., tout=None, n=1):
        super().__init__()
        self.in_type = tin; self.out_type = tout or (tin[0] if isinstance(tin, tuple) else tin)
        self.tag, self.log, self.scale = tag, log, scale

    def forward(self, *xs):
        self.log.append((self.tag, [x.tensor.detach().clone() for x in xs], [x.type for x in xs]))
        if self.scale is None:            # invariant: the mean of the input in every channel of trivial fields
            return GeometricTensor(xs[0].tensor.mean(1, keepdim=True).expand(-1, self.out_type.size, -1, -1), self.out_type)
        y = xs[0].tensor * self.scale
        for q, x in enumerate(xs[1:]): y = y + (q + 2) * x.tensor.mean()
        return GeometricTensor(y, self.out_type)

    def evaluate_output_shape(self, *s):
        return (s[0][0], self.out_type.size) + tuple(s[0][2:])


def samename(rng, sp, s, specs):
    """sometimes rename representations such that different ones share a name"""
    t = Ty(sp, s, specs)
    if rng.integers(4) or len(set(specs)) < 2: return t
    gs = space_gspec(sp); memo = {}
    from e2cnn.group import change_basis
    reps = []
    for x, r in zip(t.specs, t.reps):
        if x not in memo:
            c = change_basis(r, np.eye(r.size), "shared", supported_nonlinearities=r.supported_nonlinearities); c.attributes.update(r.attributes) if hasattr(r, "attributes") else None
            memo[x] = c
        reps.append(memo[x])
    return Ty(sp, s, specs, reps=reps)


def anyty(rng, sp, s, need=None, n=None, ms=24, same=True):
    pl = pool_for(rng, sp, s, n=10, need=need, maxsize=8)
    specs = draw(rng, pl[:int(rng.integers(1, len(pl) + 1))] if rng.integers(2) else pl, n or int(rng.integers(1, 9)), maxsize=ms, sp=sp, s=s)
    return samename(rng, sp, s, specs) if same else Ty(sp, s, specs)


def labels(rng, n):
    base = [["a", "b", "c"], ["z", "a", "m"], ["10", "9", "1"], ["x y", "X", ""], ["gate", "gated", "Gate"]][int(rng.integers(5))][:int(rng.integers(1, 4))]
    return [str(base[int(i)]) for i in rng.integers(0, len(base), size=n)]


def tags(t, hw=None, b=2, lay=None, rng=None):
    """every entry distinct: entry = channel*1000 + sample*100 + pixel"""
    if rng is not None and hw is None and rng.integers(4) == 0: b, hw = [(1, (1, 1)), (3, (5, 1)), (1, (1, 4)), (2, (6, 7)), (70, (1, 1)), (1, (33, 2))][int(rng.integers(6))]
    h, w = hw or (2, 3)
    x = np.arange(t.size)[None, :, None, None] * 1000. + np.arange(b)[:, None, None, None] * 100 + np.arange(h * w).reshape(1, 1, h, w)
    x = t32(x)
    if rng is not None: torch.set_grad_enabled(bool(rng.integers(2))); x = ask_grad(rng, mem(rng, x))
    return x


def sub_tensor(x, t, fields):
    ch = [c for f in fields for c in range(t.off[f], t.off[f + 1])]
    return x[:, ch]


def type_is(mon, ft, s, reps, key, ctx):
    mon.check(ft.gspace == s and len(ft) == len(reps) and all(a is b or a == b for a, b in zip(ft.representations, reps)) and ft.size == sum(r.size for r in reps), key, "type %s" % ft, **ctx)


def grad_routes(mon, f, x, ctx):
    """f is a selection of channels: the gradient arrives at the selected channels only, once each"""
    torch.set_grad_enabled(True)
    x = x.detach().clone().requires_grad_(True)
    y = f(x)
    y.backward(torch.ones_like(y))
    want = torch.zeros(x.shape[1])
    idx = (y.detach()[0, :, 0, 0] / 1000).round().long()
    want.index_add_(0, idx, torch.ones(len(idx)))
    mon.close(npy(x.grad[0, :, 0, 0]), npy(want), "gradient-routing", atol=1e-6, **ctx)


def order_of(t, lab, r):
    """fields in the documented order of reshuffle level r"""
    n = len(lab)
    if r == 0: return list(range(n))
    key = [(lab[i], t.reps[i].size, t.reps[i].name)[:r] for i in range(n)]
    return sorted(range(n), key=lambda i: key[i])


def branch(mon, rng, sp, s):
    t = anyty(rng, sp, s); n = len(t.specs); lab = labels(rng, n); r = int(rng.integers(0, 4))
    ctx = {"module": "branch", "space": sp, "types": t.specs, "labels": lab, "reshuffle": r}
    keep = list(lab)
    m = enn.BranchingModule(t.ft, lab, reshuffle=r)
    mon.check(lab == keep, "labels-modified", **ctx)
    x = tags(t, rng=rng)
    out = m(GeometricTensor(x, t.ft))
    if not mon.check(isinstance(out, dict) and set(out) == set(lab) == set(m.out_type), "branch-labels", "%s" % list(out), **ctx): return
    o = order_of(t, lab, r)
    for l in out:
        f = [i for i in o if lab[i] == l]
        mon.check(out[l].type == m.out_type[l], "branch-type-announced", **ctx)
        type_is(mon, out[l].type, s, [t.reps[i] for i in f], "branch-type", dict(ctx, label=l))
        mon.close(npy(out[l].tensor), npy(sub_tensor(x, t, f)), "branch-data", atol=0., label=l, **ctx)
        grad_routes(mon, lambda q: m(GeometricTensor(q, t.ft))[l].tensor, x, ctx)
    mon.close(npy(x), npy(tags(t, tuple(x.shape[2:]), x.shape[0])), "input-modified", atol=0., **ctx)
    mon.seen("branch", repr(ctx))


def merge(mon, rng, sp, s):
    L = ["u", "v", "w"][:int(rng.integers(1, 4))]
    ts = {l: anyty(rng, sp, s, n=int(rng.integers(1, 4)), ms=10) for l in L}
    log, mods, exp = [], [], []
    for i in range(int(rng.integers(1, 5)) if rng.integers(5) else int(rng.integers(9, 15))):
        l = L[int(rng.integers(len(L)))]
        sc = float(rng.choice([1., -2., .5]))
        q = int(rng.integers(4))
        if q == 0:
            to = Ty(sp, s, [("trivial",)] * int(rng.integers(1, 3))); mods.append((Probe(ts[l].ft, i, log, None, to.ft), l if rng.integers(2) else [l])); exp.append(([l], None, to))
        elif q == 1:
            l2 = L[int(rng.integers(len(L)))]
            mods.append((Probe((ts[l].ft, ts[l2].ft), i, log, sc), [l, l2])); exp.append(([l, l2], sc, ts[l]))
        else: mods.append((Probe(ts[l].ft, i, log, sc), l if rng.integers(2) else [l])); exp.append(([l], sc, ts[l]))
    ctx = {"module": "merge", "space": sp, "types": {l: t.specs for l, t in ts.items()}, "plan": [(e[0], e[1]) for e in exp]}
    keep = [(a, list(b) if isinstance(b, list) else b) for a, b in mods]
    m = enn.MergeModule(mods)
    mon.check(len(mods) == len(keep) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(mods, keep)), "modules-modified", **ctx)
    xs = {l: t32(rng.normal(size=(2, ts[l].size, 3, 2))) for l in L}
    order = list(L); rng.shuffle(order)
    y = m({l: GeometricTensor(xs[l], ts[l].ft) for l in order})
    mon.check([q[0] for q in log] == list(range(len(mods))), "merge-calls", "%s" % [q[0] for q in log], **ctx)
    want, reps = [], []
    for (tag, ins, tys), (ls, sc, to) in zip(log, exp):
        mon.check(len(ins) == len(ls) and all(torch.equal(a, xs[l]) for a, l in zip(ins, ls)) and all(a == ts[l].ft for a, l in zip(tys, ls)), "merge-inputs", **ctx)
        want.append(npy(xs[ls[0]]).mean(1, keepdims=True).repeat(to.size, 1) if sc is None else npy(xs[ls[0]]) * sc + sum(2 * npy(xs[l]).mean() for l in ls[1:])); reps += to.reps
    mon.close(npy(y.tensor), np.concatenate(want, 1), "merge-data", atol=1e-4, **ctx)
    type_is(mon, y.type, s, reps, "merge-type", ctx); mon.check(y.type == m.out_type, "merge-announced", **ctx)
    mon.seen("merge", repr(ctx))


def multiple(mon, rng, sp, s):
    two = bool(rng.integers(2))
    t = anyty(rng, sp, s, n=int(rng.integers(2, 8))); n = len(t.specs); lab = labels(rng, n); r = int(rng.integers(0, 4))
    U = sorted(set(lab)); rng.shuffle(U)
    o = order_of(t, lab, r)
    sub = {l: [i for i in o if lab[i] == l] for l in U}
    ty = {l: FieldType(s, [t.reps[i] for i in sub[l]]) for l in U}
    log, mods, exp = [], [], []
    it = list(U)
    while it:
        l = it.pop()
        if two and it and rng.integers(2):
            l2 = it.pop(); mods.append((Probe((ty[l], ty[l2]), len(mods), log, 2.), [l, l2])); exp.append((l, l2))
        else: mods.append((Probe(ty[l], len(mods), log, -1.), l)); exp.append((l,))
    ctx = {"module": "multiple", "space": sp, "types": t.specs, "labels": lab, "reshuffle": r, "plan": exp}
    m = enn.MultipleModule(t.ft, lab, mods, reshuffle=r)
    x = tags(t, rng=rng)
    y = m(GeometricTensor(x, t.ft))
    mon.check([q[0] for q in log] == list(range(len(mods))), "multiple-calls", "%s" % [q[0] for q in log], **ctx)
    want, reps = [], []
    for (tag, ins, tys), ls in zip(log, exp):
        for a, l, tt in zip(ins, ls, tys):
            mon.close(npy(a), npy(sub_tensor(x, t, sub[l])), "multiple-inputs", atol=0., label=l, **ctx); mon.check(tt == ty[l], "multiple-input-type", **ctx)
        w = npy(sub_tensor(x, t, sub[ls[0]]))
        want.append(-w if len(ls) == 1 else 2 * w + 2 * npy(sub_tensor(x, t, sub[ls[1]])).mean()); reps += [t.reps[i] for i in sub[ls[0]]]
    mon.close(npy(y.tensor), np.concatenate(want, 1), "multiple-data", atol=1e-2, **ctx)
    type_is(mon, y.type, s, reps, "multiple-type", ctx); mon.check(y.type == m.out_type, "multiple-announced", **ctx)
    mon.seen("multiple", repr(ctx))


def reshuffle(mon, rng, sp, s):
    t = anyty(rng, sp, s); n = len(t.specs)
    p = [int(i) for i in (rng.permutation(n) if rng.integers(4) else [np.arange(n), np.arange(n)[::-1], np.roll(np.arange(n), 1)][int(rng.integers(3))])]
    keep = list(p)
    m = enn.ReshuffleModule(t.ft, p)
    ctx = {"module": "reshuffle", "space": sp, "types": t.specs, "permutation": keep}
    mon.check(p == keep, "permutation-modified", **ctx)
    x = tags(t, rng=rng)
    y = m(GeometricTensor(x, t.ft))
    type_is(mon, y.type, s, [t.reps[i] for i in p], "reshuffle-type", ctx); mon.check(y.type == m.out_type, "reshuffle-announced", **ctx)
    mon.close(npy(y.tensor), npy(sub_tensor(x, t, p)), "reshuffle-data", atol=0., **ctx)
    grad_routes(mon, lambda q: m(GeometricTensor(q, t.ft)).tensor, x, ctx)
    # reshuffling back restores the tensor
    inv_p = [int(i) for i in np.argsort(p)]
    z = enn.ReshuffleModule(m.out_type, inv_p)(y)
    mon.check(z.type == t.ft and torch.equal(z.tensor, x), "reshuffle-inverse", **ctx)
    mon.seen("reshuffle", repr(ctx))


def sub_elements(rng, sp, s, i):
    """(subgroup element, parent element) pairs through the space's own maps (C02/C07 judge the maps), random for continuous subgroups"""
    sub, mp, ch = s.restrict(i)
    g = sub.fibergroup
    els = list(g.elements) if g.elements is not None else list(g.testing_elements())
    return sub, [(h, mp(h)) for h in els]


def restrict(mon, rng, sp, s):
    i = restrict_id(rng, sp)
    if i is None: return
    t = anyty(rng, sp, s, ms=14)
    ctx = {"module": "restrict", "space": sp, "types": t.specs, "id": i}
    m = enn.RestrictionModule(t.ft, i)
    sub, pairs = sub_elements(rng, sp, s, i)
    x = t32(rng.normal(size=(2, t.size, 3, 3)))
    if rng.integers(2): x = x.contiguous(memory_format=torch.channels_last)
    y = m(GeometricTensor(x, t.ft))
    mon.check(y.tensor.data_ptr() == x.data_ptr() and torch.equal(y.tensor, x) and y.tensor.stride() == x.stride(), "restriction-copies", **ctx)
    mon.check(y.type == m.out_type and y.type.gspace == sub and len(y.type) == len(t.specs), "restriction-type", **ctx)
    for h, e in pairs[:24]:
        o = 0
        for j, r in enumerate(m.out_type.representations):
            a = t.rho(e)[t.sl(j), t.sl(j)]
            if not mon.close(np.asarray(r(h)), a, "restriction-representation", "field %d" % j, atol=1e-6, h=h, e=e, **ctx): return
    for cls, z in (("restrict", GeometricTensor(x, t.ft).restrict(i)), ("type", None)):
        if z is not None: mon.check(z.type == m.out_type and torch.equal(z.tensor, x), "tensor-restrict", **ctx)
        else: mon.check(t.ft.restrict(i) == m.out_type, "type-restrict", **ctx)
    # typed data: the restricted type transforms like the original one
    xx = GeometricTensor(x, t.ft)
    for h, e in [pairs[int(q)] for q in rng.integers(0, len(pairs), size=3)]:
        mon.close(npy(y.transform_fibers(h).tensor), t.channel(npy(x), e), "restricted-fibers", atol=1e-4, h=h, e=e, **ctx)
    # a second structural module on top
    if rng.integers(2): judge_disentangle(mon, rng, m.out_type, lambda h: block_diag([np.asarray(r(h)) for r in m.out_type.representations]), [h for h, _ in pairs], ctx)
    mon.seen("restrict", repr(ctx))


def judge_disentangle(mon, rng, ft, rho, els, ctx):
    m = enn.DisentangleModule(ft)
    n = ft.size
    off = np.concatenate([[0], np.cumsum([r.size for r in ft.representations])]).astype(int)
    x = t32(rng.normal(size=(2, n, 3, 2)))
    if rng.integers(2): x = x.contiguous(memory_format=torch.channels_last)
    keep = x.clone()
    y = m(GeometricTensor(x, ft))
    mon.check(torch.equal(x, keep), "input-modified", **ctx)
    E = m(GeometricTensor(torch.eye(n)[:, :, None, None].expand(n, n, 1, 2).contiguous(), ft))
    A = npy(E.tensor)[:, :, 0, 0].T          # columns: images of the basis vectors
    mon.check(y.type == m.out_type, "disentangle-announced", **ctx)
    mon.close(npy(y.tensor), np.einsum("oi,bihw->bohw", A, npy(x)), "disentangle-linear", atol=1e-4, **ctx)
    for a, b in zip(off, off[1:]):
        mask = np.ones((n, n), bool); mask[a:b, a:b] = False
        mon.check(np.abs(A[a:b] * mask[a:b]).max(initial=0.) == 0, "disentangle-mixes-fields", **ctx)
    mon.check(np.linalg.cond(A) < 1e5, "disentangle-singular", "condition %.3g" % np.linalg.cond(A), **ctx)
    for h in [els[int(q)] for q in rng.integers(0, len(els), size=4)] + els[:6]:
        R = block_diag([np.asarray(r(h)) for r in m.out_type.representations])
        if not mon.close(R @ A, A @ rho(h), "disentangle-intertwiner", "the announced type does not transform the disentangled data", atol=3e-5 * max(1, np.abs(A).max()), h=h, **ctx): break
    # as disentangled as possible: no announced field splits further with a permutation
    mon.check(m.out_type.size == n, "disentangle-size", **ctx)
    torch.set_grad_enabled(True)
    xg = x.detach().clone().requires_grad_(True); c = t32(rng.normal(size=tuple(y.tensor.shape)))
    (m(GeometricTensor(xg, ft)).tensor * c).sum().backward()
    mon.close(npy(xg.grad), np.einsum("oi,bohw->bihw", A, npy(c)), "disentangle-gradient", atol=1e-4, **ctx)


def disent(mon, rng, sp, s):
    t = anyty(rng, sp, s, ms=20)
    ctx = {"module": "disentangle", "space": sp, "types": t.specs, "names": [r.name for r in t.reps]}
    gs = space_gspec(sp)
    els = sample_elements(gs, rng, 12)
    judge_disentangle(mon, rng, t.ft, t.rho, list(els), ctx)
    mon.seen("disentangle", repr(ctx))


def seq(mon, rng, sp, s):
    t = anyty(rng, sp, s, n=int(rng.integers(1, 4)))
    log, n = [], int(rng.integers(1, 14))
    sc = [float(rng.choice([-1., 2., .5])) for _ in range(n)]
    mods = [Probe(t.ft, i, log, sc[i]) for i in range(n)]
    how = int(rng.integers(4))
    if how == 0: m = enn.SequentialModule(*mods)
    elif how == 1:
        names = ["k%d" % int(i) for i in rng.permutation(n)]
        m = enn.SequentialModule(OrderedDict(zip(names, mods)))
    elif how == 2:
        c = int(rng.integers(1, n + 1)); m = enn.SequentialModule(*mods[:c])
        for i, q in enumerate(mods[c:]): m.add_module("more%d" % (97 - i), q)
    else:
        c = int(rng.integers(1, n + 1)); m = enn.SequentialModule(enn.SequentialModule(*mods[:c]), *mods[c:])
    ctx = {"module": "seq", "space": sp, "types": t.specs, "n": n, "how": how}
    mon.check(m.in_type == t.ft and m.out_type == t.ft, "seq-announced", **ctx)
    for rep in range(2):
        log.clear()
        x = t32(rng.normal(size=(1, t.size, 2, 2)))
        y = m(GeometricTensor(x, t.ft))
        mon.check([q[0] for q in log] == list(range(n)), "seq-order", "%s" % [q[0] for q in log], **ctx)
        z = x
        for (tag, ins, tys), c in zip(log, sc):
            mon.close(npy(ins[0]), npy(z), "seq-input", atol=1e-5, **ctx); z = ins[0] * c
        mon.close(npy(y.tensor), npy(z), "seq-output", atol=1e-5, **ctx); mon.check(y.type == t.ft, "seq-type", **ctx)
        if rep == 0: m.train() if rng.integers(2) else m.eval()
    # a chain of type changes
    i = restrict_id(rng, sp)
    if i is not None:
        p = [int(q) for q in rng.permutation(len(t.specs))]
        a = enn.ReshuffleModule(t.ft, p); b = enn.RestrictionModule(a.out_type, i); c = enn.DisentangleModule(b.out_type); d = Probe(c.out_type, 0, log, 3.)
        m = enn.SequentialModule(a, b, c, d)
        x = GeometricTensor(t32(rng.normal(size=(1, t.size, 2, 2))), t.ft)
        y = m(x); z = d(c(b(a(x))))
        mon.check(y.type == z.type == m.out_type and torch.equal(y.tensor, z.tensor), "seq-chain", **ctx)
        mon.raises(lambda: enn.SequentialModule(b, a) if b.out_type != a.in_type else (_ for _ in ()).throw(ValueError()), "seq-mismatch-accepted", **ctx)
    mon.seen("seq", repr(ctx))


def mlist(mon, rng, sp, s):
    t = anyty(rng, sp, s, n=2); log = []
    mk = lambda i: Probe(t.ft, i, log, 2.)
    ref, m = [], enn.ModuleList()
    k = 0
    if rng.integers(2):
        ref = [mk(i) for i in range(int(rng.integers(0, 4)))]; k = len(ref); m = enn.ModuleList(list(ref) if rng.integers(2) else iter(ref))
    for _ in range(int(rng.integers(2, 12))):
        op = str(rng.choice(["append", "insert", "extend", "set", "del", "get", "slice", "bad"])); q = mk(k); k += 1
        ctx = {"module": "list", "space": sp, "op": op, "n": len(ref)}
        if op == "append": m.append(q); ref.append(q)
        elif op == "insert":
            i = int(rng.integers(0, len(ref) + 1)); m.insert(i, q); ref.insert(i, q)
        elif op == "extend":
            e = [mk(k + 100 + j) for j in range(int(rng.integers(0, 3)))]; m.extend(e if rng.integers(2) else iter(e)); ref.extend(e)
        elif op == "set" and ref:
            i = int(rng.integers(-len(ref), len(ref))); m[i] = q; ref[i] = q
        elif op == "del" and ref:
            i = int(rng.integers(len(ref))); del m[i]; del ref[i]
        elif op == "slice" and ref:
            a, b = int(rng.integers(0, len(ref))), int(rng.integers(0, len(ref) + 1))
            w = m[a:b]
            mon.check(isinstance(w, enn.ModuleList) and [x for x in w] == ref[a:b], "list-slice", **ctx)
        elif op == "bad":
            bad = torch.nn.ReLU()
            f = [lambda: m.append(bad), lambda: m.insert(0, bad), lambda: m.extend([bad]), lambda: m.__setitem__(0, bad) if ref else m.append(bad), lambda: enn.ModuleList([bad])][int(rng.integers(5))]
            mon.raises(f, "list-accepts-plain-module", **ctx)
        mon.check(len(m) == len(ref) and all(a is b for a, b in zip(m, ref)), "list-content", **ctx)
        mon.check([a for a in m.children()] == [r for i, r in enumerate(ref) if all(r is not w for w in ref[:i])], "list-children", **ctx)
    mon.seen("list", repr(sp), k, len(ref))


def ident(mon, rng, sp, s):
    t = anyty(rng, sp, s); x = GeometricTensor(t32(rng.normal(size=(2, t.size, 3, 3))), t.ft)
    m = enn.IdentityModule(t.ft); y = m(x)
    mon.check(y.type == t.ft and y.tensor is x.tensor and m.out_type == t.ft, "identity", space=sp, types=t.specs)
    mon.seen("identity", repr(sp), repr(t.specs))


FN = dict(seq=seq, list=mlist, branch=branch, merge=merge, multiple=multiple, reshuffle=reshuffle, restrict=restrict, disentangle=disent, identity=ident)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp)
    for _ in range(36 if mon.tier == "quick" else 150):
        with mon.guard("raises", kind=u["k"], space=sp): FN[u["k"]](mon, mon.rng, sp, s)
    mon.sample({"space": sp, "kind": u["k"]})
