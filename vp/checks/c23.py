from ..mods import *
from .c22 import anyty, labels, tags, sub_tensor, type_is
from e2cnn.nn import tensor_directsum

RULE = "distinct (operation, space, field types, index expression / labels / scalar / breaks, tensor rank) executions compared with the same operation on a list of fields and on the raw array"
ASSUMPTIONS = ["empty selections of fields are rejected (a field type has at least one field)", "single precision tensors"]

SPS = [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, .3), ("fliprot", 4, 0.), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES
KINDS = ["type", "select", "slice", "split", "sum", "arith", "misc"]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in KINDS]


def snap(t):
    return (list(t.ft.representations), t.ft.size, len(t.ft))


def unchanged(mon, t, sn, ctx):
    mon.check(snap(t)[1:] == sn[1:] and all(a is b for a, b in zip(snap(t)[0], sn[0])), "type-modified", **ctx)


def ftype(mon, rng, sp, s):
    t = anyty(rng, sp, s, ms=16); ctx = {"op": "type", "space": sp, "types": t.specs}; sn = snap(t)
    f = t.ft
    mon.check(f.size == t.size and len(f) == len(t.specs) and f.gspace == s and f.fibergroup == s.fibergroup, "size", **ctx)
    mon.check([r.name for r in t.reps] == list(f.fields_names()), "names", **ctx)
    mon.check(len(list(iter(f))) == len(t.reps) and all(a is b for a, b in zip(f, t.reps)), "iter", **ctx)
    mon.check([int(i) for i in f.fields_start] == list(t.off[:-1]) and [int(i) for i in f.fields_end] == list(t.off[1:]), "offsets", "%s %s" % (f.fields_start, f.fields_end), **ctx)
    gs = space_gspec(sp)
    Q, Qi = np.asarray(f.change_of_basis.todense()), np.asarray(f.change_of_basis_inv.todense())
    mon.close(Q @ Qi, np.eye(t.size), "change-of-basis-inverse", atol=1e-6, **ctx)
    mon.close(npy(f.get_dense_change_of_basis()), Q, "dense-change-of-basis", atol=1e-6, **ctx); mon.close(npy(f.get_dense_change_of_basis_inv()), Qi, "dense-change-of-basis", atol=1e-5 * (1 + np.abs(Qi).max()), **ctx)
    for e in list(sample_elements(gs, rng, 5)):
        R = t.rho(e)
        mon.close(np.asarray(f.representation(e)), R, "representation", atol=1e-6 * (1 + np.abs(R).max()), e=e, **ctx)
        I = block_diag([irrep_ref(gs, id_of_name(n), e) for n in f.irreps])
        mon.close(Q @ I @ Qi, R, "irreps-and-basis", atol=1e-5 * (1 + np.abs(R).max()), e=e, **ctx)
        q = bulk(rng, 6) or (2, 3, 2); x = t32(rng.normal(size=(q[0], t.size) + q[1:]))
        mon.close(npy(GeometricTensor(x, f).transform_fibers(e).tensor), np.einsum("oi,bihw->bohw", R, npy(x)), "transform-fibers", atol=1e-4 * (1 + np.abs(R).max()), e=e, **ctx)
    # equality: same content built again, hash compatible
    g = FieldType(s, list(t.reps)); mon.check(g == f and hash(g) == hash(f) and not (g != f), "equal", **ctx)
    if len(set(map(id, t.reps))) > 1:
        p = [int(i) for i in rng.permutation(len(t.reps))]
        same = all(t.reps[i] == t.reps[j] for i, j in enumerate(p))
        mon.check((FieldType(s, [t.reps[i] for i in p]) == f) == same, "equal-permuted", **ctx)
    mon.check(f != FieldType(s, list(t.reps) + [t.reps[0]]) and f != "type" and f is not None, "unequal", **ctx)
    unchanged(mon, t, sn, ctx)
    mon.seen("type", repr(ctx))


def select(mon, rng, sp, s):
    t = anyty(rng, sp, s); n = len(t.specs); sn = snap(t); f = t.ft
    idx = [int(i) for i in rng.integers(0, n, size=int(rng.integers(1, n + 3)))]; keep = list(idx)
    ctx = {"op": "select", "space": sp, "types": t.specs, "index": keep}
    type_is(mon, f.index_select(idx), s, [t.reps[i] for i in keep], "index-select", ctx); mon.check(idx == keep, "index-modified", **ctx)
    for bad in ([n], [0, n + 3], [-1], [-n]): mon.raises(lambda: f.index_select(bad), "index-select-out-of-range", "%s" % bad, **ctx)
    so = f.sorted(); o = sorted(range(n), key=lambda i: t.sizes[i])
    mon.check([r.size for r in so] == sorted(t.sizes), "sorted-sizes", **ctx)
    type_is(mon, so, s, [t.reps[i] for i in o], "sorted", ctx)
    lab = labels(rng, n); kl = list(lab)
    gr = f.group_by_labels(lab)
    mon.check(set(gr) == set(lab) and lab == kl, "group-labels", **ctx)
    for l in gr: type_is(mon, gr[l], s, [t.reps[i] for i in range(n) if kl[i] == l], "group-type", dict(ctx, labels=kl))
    mon.raises(lambda: f.group_by_labels(lab + ["q"]), "group-wrong-length", **ctx)
    if n > 1: mon.raises(lambda: f.group_by_labels(lab[:-1]), "group-wrong-length", **ctx)
    o2 = anyty(rng, sp, s)
    type_is(mon, f + o2.ft, s, t.reps + o2.reps, "add-types", ctx)
    a = (f + o2.ft) + f; b = f + (o2.ft + f); mon.check(a == b and hash(a) == hash(b) and a.size == 2 * t.size + o2.size, "add-associative", **ctx)
    i = restrict_id(rng, sp)
    if i is not None:
        sub, mp, _ = s.restrict(i); r = f.restrict(i)
        mon.check(r.gspace == sub and len(r) == n and [q.size for q in r] == t.sizes, "restrict-type", "", id=i, **ctx)
        el = list(sub.fibergroup.elements) if sub.fibergroup.elements is not None else list(sub.fibergroup.testing_elements())
        for h in [el[int(q)] for q in rng.integers(0, len(el), size=4)]:
            mon.close(np.asarray(r.representation(h)), t.rho(mp(h)), "restrict-representation", atol=1e-6 * 10, h=h, id=i, **ctx)
        mon.check(f.index_select(keep).restrict(i) == r.index_select(keep), "restrict-commutes-with-select", id=i, **ctx)
    unchanged(mon, t, sn, ctx)
    mon.seen("select", repr(ctx))


def rand_slice(rng, n, steps):
    def e():
        return None if rng.integers(3) == 0 else int(rng.integers(-n - 2, n + 3))
    st = [None, 1] + ([2, 3, -1, -2] if steps else [2])
    return slice(e(), e(), st[int(rng.integers(len(st)))])


def slicing(mon, rng, sp, s):
    t = anyty(rng, sp, s); n = len(t.specs)
    nd = int(rng.choice([2, 3, 4, 4, 4, 4]))
    q = bulk(rng) or (int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 5)))
    shape = (q[0], t.size, q[1], q[2])[:nd]
    x = torch.arange(int(np.prod(shape)), dtype=torch.float32).reshape(shape)
    if nd == 4 and rng.integers(2): x = x.contiguous(memory_format=torch.channels_last)
    keep = x.clone()
    g = GeometricTensor(x, t.ft)
    for _ in range(12):
        dims = [shape[0], n] + list(shape[2:])
        k = int(rng.integers(1, nd + 1)); full = [None] * nd
        for a in range(nd):
            r = int(rng.integers(4))
            if r == 0: full[a] = int(rng.integers(-dims[a], dims[a]))
            elif r == 1: full[a] = slice(None)
            else: full[a] = rand_slice(rng, dims[a], a == 1)
        # write it with an ellipsis or truncated
        style = int(rng.integers(4))
        if style == 0: expr = tuple(full)
        elif style == 1:
            for a in range(k, nd): full[a] = slice(None)
            expr = tuple(full[:k])
            if k == 1 and rng.integers(2): expr = full[0]
        elif style == 2:
            i = int(rng.integers(0, nd)); j = int(rng.integers(i + 1, nd + 1))
            for a in range(i, j): full[a] = slice(None)
            expr = tuple(full[:i]) + (Ellipsis,) + tuple(full[j:])
        else:
            for a in range(k, nd): full[a] = slice(None)
            expr = tuple(full[:k]) + ((Ellipsis,) if k < nd else ())
        ctx = {"op": "slice", "space": sp, "types": t.specs, "index": expr, "shape": shape}
        want = npy(x)
        fields = list(range(n))
        for a in range(nd):
            q = full[a]
            pos = [range(dims[a])[q]] if isinstance(q, int) else list(range(dims[a]))[q]
            if a == 1:
                fields = pos; pos = [c for f in fields for c in range(t.off[f], t.off[f + 1])]
            want = np.take(want, pos, axis=a)
        if not fields:
            mon.raises(lambda: g[expr], "empty-selection", **ctx); continue
        with mon.guard("slice-raises", **ctx):
            y = g[expr]
            type_is(mon, y.type, s, [t.reps[f] for f in fields], "slice-type", ctx)
            mon.close(npy(y.tensor), want, "slice-data", atol=0., **ctx)
            if y.tensor.numel() and all(isinstance(q, int) or q.step in (None, 1) for q in full):
                mon.check(y.tensor.untyped_storage().data_ptr() == x.untyped_storage().data_ptr(), "slice-not-a-view", **ctx)
        mon.seen("slice", repr(ctx))
    # rejected index expressions
    ctx = {"op": "slice", "space": sp, "types": t.specs, "shape": shape}
    for bad in [(slice(None), n), (slice(None), -n - 1), (slice(None), [0]), (torch.tensor([0]),), (None,), (slice(None),) * (nd + 1), (-shape[0] - 1,), "a", (slice(None), "b"), (slice(None), 1.5)]:
        mon.raises(lambda: g[bad], "bad-index-accepted", "%s" % (bad,), **ctx)
    def seti(): g[:, 0] = 0.
    mon.raises(seti, "setitem-accepted", **ctx)
    mon.check(torch.equal(x, keep) and g.tensor is x and g.type is t.ft, "operand-modified", **ctx)


def split(mon, rng, sp, s):
    t = anyty(rng, sp, s); n = len(t.specs)
    x = tags(t, rng=rng); keep = x.clone(); g = GeometricTensor(x, t.ft)
    if rng.integers(5) == 0: br = None; pts = list(range(1, n))
    else: br = sorted(int(i) for i in rng.choice(np.arange(1, n), size=int(rng.integers(0, n)), replace=False)) if n > 1 else []; pts = list(br)
    kb = list(br) if br is not None else None
    ctx = {"op": "split", "space": sp, "types": t.specs, "breaks": br}
    out = g.split(br)
    mon.check(br == kb, "breaks-modified", **ctx)
    e = [0] + pts + [n]
    if not mon.check(len(out) == len(e) - 1, "split-count", **ctx): return
    for y, a, b in zip(out, e, e[1:]):
        type_is(mon, y.type, s, t.reps[a:b], "split-type", ctx); mon.close(npy(y.tensor), npy(x[:, t.off[a]:t.off[b]]), "split-data", atol=0., **ctx)
    z = tensor_directsum(out)
    mon.check(z.type == t.ft and torch.equal(z.tensor, x), "split-directsum", **ctx)
    for bad in ([0], [n], [2, 1], [1, 1], [-1], [n + 1]): mon.raises(lambda: g.split(list(bad)), "bad-breaks", "%s" % bad, **ctx)
    mon.check(torch.equal(x, keep) and g.tensor is x, "operand-modified", **ctx)
    mon.seen("split", repr(ctx))


def dsum(mon, rng, sp, s):
    ts = [anyty(rng, sp, s, n=int(rng.integers(1, 4)), ms=10) for _ in range(int(rng.integers(1, 5)))]
    b, hw = [(2, (2, 3)), (1, (1, 1)), (3, (5, 1)), (2, (6, 7))][int(rng.integers(4))]
    xs = [tags(t, hw, b, rng=rng) + 7 * i for i, t in enumerate(ts)]; gs = [GeometricTensor(x, t.ft) for x, t in zip(xs, ts)]; kl = list(gs); kx = [x.clone() for x in xs]
    ctx = {"op": "directsum", "space": sp, "types": [t.specs for t in ts]}
    y = tensor_directsum(gs)
    type_is(mon, y.type, s, [r for t in ts for r in t.reps], "directsum-type", ctx)
    mon.close(npy(y.tensor), np.concatenate([npy(x) for x in kx], 1), "directsum-data", atol=0., **ctx)
    mon.check(len(gs) == len(kl) and all(a is b and torch.equal(a.tensor, q) and a.type is t.ft and len(t.ft) == len(t.specs) for a, b, q, t in zip(gs, kl, kx, ts)), "operand-modified", **ctx)
    y.tensor.zero_(); mon.check(all(torch.equal(a.tensor, q) for a, q in zip(gs, kx)), "directsum-aliases", **ctx)
    bad = GeometricTensor(torch.zeros(3, ts[0].size, 2, 3), ts[0].ft), GeometricTensor(torch.zeros(2, ts[0].size, 3, 3), ts[0].ft), GeometricTensor(torch.zeros(2, ts[0].size, 2), ts[0].ft)
    for b in bad: mon.raises(lambda: tensor_directsum([gs[0], b]), "directsum-shape-mismatch", "%s" % (tuple(b.tensor.shape),), **ctx)
    mon.seen("directsum", repr(ctx))


def arith(mon, rng, sp, s):
    t = anyty(rng, sp, s); sh = (2, t.size, 3, 2)
    X, Y = rng.normal(size=sh).astype(np.float32), rng.normal(size=sh).astype(np.float32)
    f2 = FieldType(s, list(t.reps)) if rng.integers(2) else t.ft
    mk = lambda: (GeometricTensor(torch.tensor(X), t.ft), GeometricTensor(torch.tensor(Y), f2))
    c = float(np.float32(rng.normal()))
    sc = [c, torch.tensor(c), torch.tensor([c]), torch.tensor([[c]]), torch.nn.Parameter(torch.tensor(c)), float(0.), float(-1.), 1., torch.tensor(1.)][int(rng.integers(9))]
    cv = float(sc)
    ctx = {"op": "arith", "space": sp, "types": t.specs, "scalar": repr(sc)}
    A, B = X.astype(float), Y.astype(float)

    def out(f, want, key):
        a, b = mk(); ta, tb = a.tensor, b.tensor
        r = f(a, b)
        mon.check(isinstance(r, GeometricTensor) and r.type == t.ft, "arith-type", "%s" % key, **ctx)
        mon.close(npy(r.tensor), want, key, atol=2e-5, **ctx)
        mon.check(a.tensor is ta and b.tensor is tb and np.array_equal(ta.numpy(), X) and np.array_equal(tb.numpy(), Y) and r.tensor.data_ptr() not in (ta.data_ptr(), tb.data_ptr()), "operand-modified", key, **ctx)
        mon.seen(key, repr(ctx))
    out(lambda a, b: a + b, A + B, "add"); out(lambda a, b: a - b, A - B, "sub"); out(lambda a, b: a * sc, A * cv, "mul"); out(lambda a, b: sc * a, A * cv, "rmul")
    out(lambda a, b: a + a, 2 * A, "add-self"); out(lambda a, b: a - a, 0 * A, "sub-self")

    def inp(f, want, key):
        a, b = mk(); a0, ta, tb = a, a.tensor, b.tensor
        with torch.no_grad(): r = f(a, b)
        mon.check(r is a0 and r.type == t.ft and r.tensor is ta, "inplace-identity", key, **ctx)
        mon.close(npy(ta), want, key, atol=2e-5, **ctx); mon.check(np.array_equal(tb.numpy(), Y) and b.tensor is tb, "operand-modified", key, **ctx)
        mon.seen(key, repr(ctx))

    def iadd(a, b): a += b; return a
    def isub(a, b): a -= b; return a
    def imul(a, b): a *= sc; return a
    inp(iadd, A + B, "iadd"); inp(isub, A - B, "isub"); inp(imul, A * cv, "imul")
    # autograd
    a = GeometricTensor(torch.tensor(X, requires_grad=True), t.ft); b = GeometricTensor(torch.tensor(Y, requires_grad=True), f2)
    ((a + b) * 2. - b * 5.).tensor.sum().backward()
    mon.check(bool((a.tensor.grad == 2).all() and (b.tensor.grad == -3).all()), "arith-gradient", **ctx)
    # only scalars multiply
    a, b = mk()
    mon.raises(lambda: a * torch.ones(2), "mul-non-scalar", **ctx); mon.raises(lambda: a * torch.ones(sh), "mul-non-scalar", **ctx); mon.raises(lambda: a * b, "mul-tensors", **ctx)

    def im(q):
        a, b = mk(); a *= q
    mon.raises(lambda: im(torch.ones(1, t.size, 1, 1) if t.size > 1 else torch.ones(2, 1, 1, 1)), "mul-non-scalar", **ctx)


def misc(mon, rng, sp, s):
    t = anyty(rng, sp, s); x = t32(rng.normal(size=(2, t.size, 3, 2))); g = GeometricTensor(x, t.ft); ctx = {"op": "misc", "space": sp, "types": t.specs}
    mon.check(g.shape == x.shape and g.size() == x.size() and g.tensor is x and g.type is t.ft, "wrapping", **ctx)
    d = g.to(torch.float64); mon.check(d.tensor.dtype == torch.float64 and d.type == t.ft and g.tensor is x and torch.equal(d.tensor.float(), x), "to", **ctx)
    mon.check(isinstance(repr(g), str) and isinstance(repr(t.ft), str), "repr", **ctx)
    for q in (1, -1):
        if t.size + q > 0: mon.raises(lambda: GeometricTensor(torch.zeros(2, t.size + q, 3, 2), t.ft), "wrong-channels", **ctx)
    mon.raises(lambda: GeometricTensor(torch.zeros(t.size), t.ft), "one-dimensional", **ctx); mon.raises(lambda: GeometricTensor(npy(x), t.ft), "numpy", **ctx)
    mon.raises(lambda: FieldType(s, []), "empty-type", **ctx)
    # the caller's list and the type are independent
    l = list(t.reps); f = FieldType(s, l); l.append(l[0]); l.reverse()
    mon.check(f == t.ft and len(f) == len(t.reps) and f.size == t.size and f.representation.size == t.size and f.fields_start.shape[0] == len(t.reps), "caller-list-aliased", **ctx)
    i = restrict_id(rng, sp)
    if i is not None:
        r = g.restrict(i); mon.check(r.tensor is x and r.type == t.ft.restrict(i) and g.type is t.ft, "restrict-tensor", id=i, **ctx)
    mon.seen("misc", repr(ctx))


FN = dict(type=ftype, select=select, slice=slicing, split=split, sum=dsum, arith=arith, misc=misc)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp)
    for _ in range(40 if mon.tier == "quick" else 200):
        with mon.guard("raises", kind=u["k"], space=sp): FN[u["k"]](mon, mon.rng, sp, s)
    mon.sample({"space": sp, "kind": u["k"]})
