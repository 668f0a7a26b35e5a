from ..mods import *
from .c22 import anyty, Probe
from e2cnn.nn import tensor_directsum
from e2cnn.group import change_basis

RULE = "distinct (operation or module, space, field types, kind of mismatch) attempts which had to be rejected, and matching attempts with independently constructed equal objects which had to be accepted"
ASSUMPTIONS = ["a rejection is any raised exception", "reflection axes are lines: angles which differ by a multiple of pi describe the same axis",
               "which nonlinearities a representation supports is judged by C06; here only that a module refuses representations which do not advertise it"]

SPS = [("triv",), ("flip", 0.), ("flip", .4), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, .3), ("fliprot", 4, 0.), ("fliprot", 4, np.pi / 4), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[2:4]
KINDS = ["spaces", "types", "ops", "layers", "unsupported", "containers"]


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in KINDS] + [{"sp": sp, "k": "m:" + k} for sp in SPS for k in ALL]


def axis_shift(sp, d):
    """the same space with its reflection axis rotated by d"""
    if sp[0] == "flip": return ("flip", sp[1] + d)
    if sp[0] == "fliprot": return sp[:-1] + (sp[-1] + d,)
    return None


def other_spaces(sp):
    """spaces which differ from sp, with the kind of difference"""
    out = []
    for d in (np.pi / 2, .3, np.pi / 4, -.01):
        a = axis_shift(sp, d)
        if a: out.append(("axis", a))
    for q in [("triv",), ("flip", 0.), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 4, 0.), ("fliprot", -1, 2, np.pi / 2)]:
        if space_gspec(q)[:2] != space_gspec(sp)[:2] or q[0] != sp[0]: out.append(("group", q))
    return out


def clone_rep(r, name=None):
    if (name or r.name) in r.group.representations: return r
    c = change_basis(r, np.eye(r.size), name or r.name, supported_nonlinearities=set(r.supported_nonlinearities))
    c.attributes.update(getattr(r, "attributes", {}))
    return c


def impostors(rng, sp, s, t):
    """field types which are not t, all with the same number of channels: (kind, FieldType)"""
    out = []
    n = len(t.reps)
    if n > 1:
        for _ in range(3):
            p = [int(i) for i in rng.permutation(n)]
            if any(not (t.reps[i] == t.reps[j]) for i, j in enumerate(p)): out.append(("permuted", FieldType(s, [t.reps[i] for i in p]))); break
    if any(x != ("trivial",) and not r.is_trivial() for x, r in zip(t.specs, t.reps)): out.append(("all-trivial", FieldType(s, [s.trivial_repr] * t.size)))
    # the same names, another representation
    for i, r in enumerate(t.reps):
        if r.size < 2 or r.name in r.group.representations: continue
        p = np.eye(r.size)[rng.permutation(r.size)]
        q = change_basis(r, p, r.name, supported_nonlinearities=set(r.supported_nonlinearities))
        if np.allclose(q.change_of_basis, r.change_of_basis): continue
        out.append(("same-name", FieldType(s, t.reps[:i] + [q] + t.reps[i + 1:]))); break
    # two adjacent fields fused / one field added and one removed: same size, other number of fields
    if n > 1: out.append(("fused", FieldType(s, [t.reps[0] + t.reps[1]] + t.reps[2:])))
    for kind, q in other_spaces(sp):
        o = space(q)
        if kind == "axis" or o.fibergroup == s.fibergroup:
            try: out.append((kind, FieldType(o, list(t.reps))))
            except AssertionError: pass
        else: out.append((kind, FieldType(o, [o.trivial_repr] * t.size)))
    return out


def fresh_space(sp):
    """an independently constructed equal space"""
    q = list(sp)
    return space(tuple(q))


def sub_space(sp, i):
    """description of the space obtained by restricting sp to the subgroup i"""
    k = sp[0]
    m = i if k == "rot" else (i[1] if k == "fliprot" else None)
    if k == "rot": return ("triv",) if m == 1 else ("rot", m)
    if k == "flip": return ("triv",)
    if k == "fliprot":
        n = sp[1]
        if i[0] is None: return ("triv",) if m == 1 else (("rot", -1, 2) if m == -1 else ("rot", m))
        ax = sp[-1] + (i[0] * np.pi / n if n != -1 else i[0] / 2)
        return ("flip", ax) if m == 1 else ("fliprot", m, ax)
    return None


def spaces(mon, rng, sp, s):
    ctx = {"op": "spaces", "space": sp}
    f = fresh_space(sp)
    mon.check(s == f and f == s and not (s != f) and hash(s) == hash(f), "equal-spaces", **ctx)
    for k in (-1, 1, 2):
        a = axis_shift(sp, k * np.pi)
        if a:
            g = space(a); mon.check(g == s and s == g and hash(g) == hash(s), "same-axis", "axis + %d pi" % k, **ctx)
    for kind, q in other_spaces(sp):
        g = space(q); mon.check(s != g and g != s and not (s == g), "different-spaces-equal", kind, other=q, **ctx)
        mon.seen("spaces", sp, q)
    mon.check(s != None and s != "x" and s != s.fibergroup, "space-vs-other-object", **ctx)
    # a restricted space equals the directly built one, whatever the path
    i = restrict_id(rng, sp)
    if i is not None:
        a, _, _ = s.restrict(i); b, _, _ = f.restrict(i)
        mon.check(a == b and hash(a) == hash(b), "restricted-spaces", id=i, **ctx)
        d = sub_space(sp, i)
        if d: g = space(d); mon.check(a == g and g == a and hash(a) == hash(g), "restricted-vs-direct", "%s" % (d,), id=i, **ctx)
        mon.seen("restricted", sp, repr(i))


def types(mon, rng, sp, s):
    t = anyty(rng, sp, s, same=False)
    if rng.integers(2): t = Ty(sp, s, t.specs, reps=[clone_rep(r, "shared") for r in t.reps])
    ctx = {"op": "types", "space": sp, "types": t.specs}
    f = fresh_space(sp)
    e = FieldType(f, [clone_rep(r) for r in t.reps] if rng.integers(2) else list(t.reps))
    mon.check(e == t.ft and t.ft == e and hash(FieldType(f, list(t.reps))) == hash(t.ft), "equal-types", **ctx)
    x = t32(rng.normal(size=(2, t.size, 3, 3)))
    a, b = GeometricTensor(x, t.ft), GeometricTensor(x, e)
    with mon.guard("equal-rejected", **ctx):
        y = a + b; y = a - b; y = tensor_directsum([a, b]); z = t.ft + e
        mon.check(y.type == t.ft + t.ft == z, "equal-sum", **ctx)
    for kind, o in impostors(rng, sp, s, t):
        c = dict(ctx, mismatch=kind, other=str(o)[:200])
        mon.check(o != t.ft and t.ft != o, "different-types-equal", kind, **c)
        g = GeometricTensor(x, o)

        def ia(): q = GeometricTensor(x.clone(), t.ft); q += g; return q
        def isb(): q = GeometricTensor(x.clone(), t.ft); q -= g; return q
        for nm, f in (("add", lambda: a + g), ("radd", lambda: g + a), ("sub", lambda: a - g), ("iadd", ia), ("isub", isb)):
            mon.raises(f, "%s-accepted" % nm, kind, **c)
        if kind in ("axis", "group"):
            mon.raises(lambda: tensor_directsum([a, g]), "directsum-accepted", kind, **c); mon.raises(lambda: tensor_directsum([g, g, a]), "directsum-accepted", kind, **c)
            mon.raises(lambda: t.ft + o, "type-sum-accepted", kind, **c); mon.raises(lambda: o + t.ft, "type-sum-accepted", kind, **c)
        mon.seen("types", repr(c))
    # representations of another group
    for kind, q in other_spaces(sp):
        o = space(q)
        if o.fibergroup == s.fibergroup: continue
        mon.raises(lambda: FieldType(s, list(t.reps) + [o.trivial_repr]), "foreign-representation", "%s" % (q,), **ctx)
        mon.raises(lambda: s.build_kernel_basis(t.reps[0], o.trivial_repr, sigma=[.6], rings=[1.], maximum_frequency=2), "foreign-kernel-basis", "%s" % (q,), **ctx)


def ops(mon, rng, sp, s):
    t = anyty(rng, sp, s, same=False); ctx = {"op": "ops", "space": sp, "types": t.specs}
    x = t32(rng.normal(size=(2, t.size, 3, 3))); g = GeometricTensor(x, t.ft)
    for d in (-1, 1, t.size):
        if t.size + d > 0: mon.raises(lambda: GeometricTensor(t32(rng.normal(size=(2, t.size + d, 3, 3))), t.ft), "wrong-channels", **ctx)
    mon.raises(lambda: GeometricTensor(x, t.reps), "type-not-a-type", **ctx); mon.raises(lambda: GeometricTensor(x, s), "type-not-a-type", **ctx)
    mon.raises(lambda: g + x, "add-plain-tensor", **ctx); mon.raises(lambda: g * g, "mul-geometric", **ctx)
    # elements of another group
    bad = {"C": [(0, 1), 1.5, "a", None], "D": [0, (2, 0), (0, .5), None], "SO2": [(0, 1.), "a", None], "O2": [.5, (2, 1.), None]}[space_gspec(sp)[0]]
    if space_gspec(sp)[0] in ("C", "D"):
        n = s.fibergroup.order(); bad += [n + 100, -1] if space_gspec(sp)[0] == "C" else [(0, n), (1, -1)]
    for e in bad:
        mon.raises(lambda: g.transform(e), "transform-foreign-element", "%r" % (e,), **ctx); mon.raises(lambda: g.transform_fibers(e), "transform-foreign-element", "%r" % (e,), **ctx)
    mon.seen("ops", repr(ctx))


def layers(mon, rng, sp, s):
    ctx = {"op": "layers", "space": sp}
    pl = pool_for(rng, sp, s, n=6, maxsize=5)
    t = Ty(sp, s, draw(rng, pl, 2, maxsize=6, sp=sp, s=s)); ctx["types"] = t.specs
    for kind in ("conv", "convT", "diffop"):
        cls = {"conv": enn.R2Conv, "convT": enn.R2ConvTransposed, "diffop": enn.R2Diffop}[kind]
        f = fresh_space(sp)
        with mon.guard("equal-rejected", layer=kind, **ctx):
            m = cls(t.ft, FieldType(f, list(t.reps)), kernel_size=3, padding=1)
            y = m(GeometricTensor(torch.zeros(1, t.size, 4, 4), FieldType(fresh_space(sp), list(t.reps)))); mon.check(y.type == t.ft, "layer-type", **ctx)
        for k, q in other_spaces(sp):
            o = space(q)
            try: to = FieldType(o, list(t.reps))
            except AssertionError: to = FieldType(o, [o.trivial_repr] * 2)
            mon.raises(lambda: cls(t.ft, to, kernel_size=3), "layer-between-spaces", "%s %s" % (kind, q), **ctx); mon.raises(lambda: cls(to, t.ft, kernel_size=3), "layer-between-spaces", "%s %s" % (kind, q), **ctx)
            mon.seen("layers", kind, sp, q)
        # grouped: the groups need to be equal
        a = [pl[int(i)] for i in rng.integers(0, len(pl), size=4)]
        ty = Ty(sp, s, a); reps = ty.reps
        good = Ty(sp, s, [a[0]] * 4)
        eq = reps[0] == reps[2] and reps[1] == reps[3]
        if not eq:
            mon.raises(lambda: cls(ty.ft, good.ft, kernel_size=3, groups=2), "unequal-groups", "%s input" % kind, groups=a, **ctx); mon.raises(lambda: cls(good.ft, ty.ft, kernel_size=3, groups=2), "unequal-groups", "%s output" % kind, groups=a, **ctx)
        mon.raises(lambda: cls(good.ft, good.ft, kernel_size=3, groups=3), "groups-not-dividing", kind, **ctx)
        for b in (dict(padding="same2"), dict(padding_mode="mirror"), dict(basisexpansion="none")):
            if kind == "convT" and "basisexpansion" not in b: continue
            mon.raises(lambda: cls(t.ft, t.ft, kernel_size=3, **b), "bad-option", "%s %s" % (kind, b), **ctx)
        # same sizes, same names, other representation
        for i, r in enumerate(t.reps):
            if r.size < 2: continue
            r = clone_rep(r, "shared")
            q = change_basis(r, np.eye(r.size)[rng.permutation(r.size)], "shared", supported_nonlinearities=set(r.supported_nonlinearities))
            if np.allclose(q.change_of_basis, r.change_of_basis): continue
            try: cls(FieldType(s, [r]), t.ft, kernel_size=3)
            except ValueError: continue
            mon.raises(lambda: cls(FieldType(s, [r, q]), t.ft, kernel_size=3, groups=2 if len(t.specs) == 2 and t.reps[0] == t.reps[1] else 5), "unequal-groups", "same name", **ctx)


def unsupported(mon, rng, sp, s):
    gs = space_gspec(sp)
    every = pool_for(rng, sp, s, n=20, maxsize=8)
    need = {"inner": (enn.InnerBatchNorm, "pointwise"), "relu": (enn.ReLU, "pointwise"), "elu": (enn.ELU, "pointwise"), "pointwise": (enn.PointwiseNonLinearity, "pointwise"), "pdrop": (enn.PointwiseDropout, "pointwise"),
            "gpool": (enn.GroupPooling, "pointwise"), "max": (lambda t: enn.PointwiseMaxPool(t, 2), "pointwise"), "maxaa": (lambda t: enn.PointwiseMaxPoolAntialiased(t, 2), "pointwise"),
            "adamax": (lambda t: enn.PointwiseAdaptiveMaxPool(t, 2), "pointwise"), "adaavg": (lambda t: enn.PointwiseAdaptiveAvgPool(t, 2), "pointwise"),
            "normnl": (enn.NormNonLinearity, "norm"), "normbn": (enn.NormBatchNorm, "norm"), "normpool": (enn.NormPool, "norm"), "normmax": (lambda t: enn.NormMaxPool(t, 2), "norm"), "concat": (enn.ConcatenatedNonLinearity, "concatenated"),
            "vector": (enn.VectorFieldNonLinearity, "vectorfield"), "indnormnl": (enn.InducedNormNonLinearity, "induced_norm_"), "indnormpool": (enn.InducedNormPool, "induced_norm_"), "indnormbn": (enn.InducedNormBatchNorm, "induced_norm_")}
    for k, (cls, nl) in need.items():
        sup = lambda r: nl in r.supported_nonlinearities or nl.endswith("_") and any(q.startswith(nl[:-1]) for q in r.supported_nonlinearities)
        good = [x for x in every if sup(build_rep(s.fibergroup, gs, x))]; badr = [x for x in every if not sup(build_rep(s.fibergroup, gs, x))]
        if not badr: continue
        for _ in range(2):
            specs = [good[int(i)] for i in rng.integers(0, len(good), size=int(rng.integers(0, 4)))] if good else []
            specs.insert(int(rng.integers(0, len(specs) + 1)), badr[int(rng.integers(len(badr)))])
            t = Ty(sp, s, specs)
            mon.raises(lambda: cls(t.ft), "unsupported-accepted", k, module=k, space=sp, types=t.specs); mon.seen("unsupported", k, sp, repr(specs))
    # gates must be trivial, gated fields must support it, as many gates as gated fields
    gd = [x for x in every if has("gated")(build_rep(s.fibergroup, gs, x))]; ng = [x for x in every if not has("gated")(build_rep(s.fibergroup, gs, x))]
    nt = [x for x in every if not build_rep(s.fibergroup, gs, x).is_trivial()]
    c = lambda l: l[int(rng.integers(len(l)))]
    T = ("trivial",)
    cases = []
    if gd: cases += [("count", [T, T, c(gd)], ["gate", "gate", "gated"]), ("count", [T, c(gd), c(gd)], ["gate", "gated", "gated"]), ("label", [T, c(gd)], ["gate", "open"]), ("length", [T, c(gd)], ["gate"])]
    if gd and nt: cases.append(("gate", [c(nt), c(gd)], ["gate", "gated"]))
    if ng: cases.append(("gated", [T, c(ng)], ["gate", "gated"]))
    for why, specs, lab in cases:
        t = Ty(sp, s, specs)
        mon.raises(lambda: enn.GatedNonLinearity1(t.ft, gates=lab), "gates-accepted", why, space=sp, types=specs, gates=lab)
        if len(lab) == len(specs) and set(lab) == {"gate", "gated"}:
            a, b = Ty(sp, s, [x for x, l in zip(specs, lab) if l == "gate"]), Ty(sp, s, [x for x, l in zip(specs, lab) if l == "gated"])
            mon.raises(lambda: enn.GatedNonLinearity2((a.ft, b.ft)), "gates-accepted", "gated2 " + why, space=sp, types=specs)
        mon.seen("gates", why, sp, repr(specs))
    # trivial irreps inside a norm batch normalisation
    nb = [x for x in every if has("norm")(build_rep(s.fibergroup, gs, x)) and not nontrivial(build_rep(s.fibergroup, gs, x))]
    if nb: mon.raises(lambda: enn.NormBatchNorm(Ty(sp, s, [c(nb)]).ft), "normbn-trivial", space=sp)
    for p in (-.1, 1.1): mon.raises(lambda: enn.FieldDropout(Ty(sp, s, [T]).ft, p=p), "dropout-p", space=sp); mon.raises(lambda: enn.PointwiseDropout(Ty(sp, s, [T]).ft, p=p), "dropout-p", space=sp)
    for f in ("relu", "p_relux", ""): mon.raises(lambda: enn.PointwiseNonLinearity(Ty(sp, s, [T]).ft, function=f), "function-name", space=sp); mon.raises(lambda: enn.NormNonLinearity(Ty(sp, s, [T]).ft, function=f), "function-name", space=sp)


def containers(mon, rng, sp, s):
    t = anyty(rng, sp, s, same=False, n=4); log = []; ctx = {"op": "containers", "space": sp, "types": t.specs}
    P = lambda ft: Probe(ft, 0, log, 2.)
    e = FieldType(fresh_space(sp), list(t.reps))
    with mon.guard("equal-rejected", **ctx): enn.SequentialModule(P(t.ft), P(e), P(t.ft))(GeometricTensor(torch.zeros(1, t.size, 1, 1), e))
    for kind, o in impostors(rng, sp, s, t):
        c = dict(ctx, mismatch=kind, other=str(o)[:200])
        mon.raises(lambda: enn.SequentialModule(P(t.ft), P(o)), "sequence-accepted", kind, **c); mon.raises(lambda: enn.SequentialModule(P(o), P(o), P(t.ft)), "sequence-accepted", kind, **c)
        q = enn.SequentialModule(P(t.ft)); mon.raises(lambda: q.add_module("x", P(o)), "sequence-append-accepted", kind, **c)
        mon.raises(lambda: enn.MultipleModule(t.ft, ["a"] * len(t.specs), [(P(o), "a")]), "multiple-accepted", kind, **c)
        x = GeometricTensor(torch.zeros(1, t.size, 2, 2), o)
        for m in (enn.SequentialModule(P(t.ft)), enn.SequentialModule(enn.IdentityModule(t.ft)), enn.IdentityModule(t.ft), enn.BranchingModule(t.ft, ["a"] * len(t.specs)), enn.MultipleModule(t.ft, ["a"] * len(t.specs), [(P(t.ft), "a")])):
            mon.raises(lambda: m(x), "container-input-accepted", "%s %s" % (type(m).__name__, kind), **c)
        if kind in ("axis", "group"): mon.raises(lambda: enn.MergeModule([(P(t.ft), "a"), (P(o), "b")]), "merge-accepted", kind, **c)
        mon.seen("containers", repr(c))
    n = len(t.specs)
    for p in ([0] * n + [0], list(range(n - 1)) if n > 1 else [1], [n] + list(range(1, n)), list(range(1, n + 1))): mon.raises(lambda: enn.ReshuffleModule(t.ft, p), "not-a-permutation", "%s" % p, **ctx)
    mon.raises(lambda: enn.BranchingModule(t.ft, ["a"] * (n + 1)), "labels-length", **ctx); mon.raises(lambda: enn.BranchingModule(t.ft, ["a"] * n, reshuffle=4), "reshuffle-level", **ctx); mon.raises(lambda: enn.BranchingModule(t.ft, ["a"] * n, reshuffle=-1), "reshuffle-level", **ctx)
    mon.raises(lambda: enn.MultipleModule(t.ft, ["a"] * n, [(P(t.ft), "b")]), "unknown-label", **ctx); mon.raises(lambda: enn.MultipleModule(t.ft, ["a"] * n, [(P(t.ft), "a"), (P(t.ft), "b")]), "unknown-label", **ctx)
    mon.raises(lambda: enn.SequentialModule(torch.nn.ReLU()), "plain-module", **ctx)


def module(mon, rng, sp, s, k):
    inst = rand_module(rng, sp, s, k)
    if inst is None: return False
    hw = inst.shape(rng)
    if hw is None: return True
    inst.m.eval()
    xs = [t32(rng.normal(size=(2, t.size) + hw)) for t in inst.tins]
    ctx = {"module": k, "space": sp, "types": [t.specs for t in inst.tins], "options": inst.opts}
    with mon.guard("equal-rejected", **ctx):
        es = [FieldType(fresh_space(sp), list(t.reps)) for t in inst.tins]
        y = inst.m(*[GeometricTensor(x.clone(), e) for x, e in zip(xs, es)]); z = inst.call([x.clone() for x in xs])
        mon.check(y.type == z.type and torch.allclose(torch.nan_to_num(y.tensor), torch.nan_to_num(z.tensor)), "equal-type-other-result", **ctx)
    for j, t in enumerate(inst.tins):
        for kind, o in impostors(rng, sp, s, t):
            args = [GeometricTensor(x.clone(), q.ft) for x, q in zip(xs, inst.tins)]; args[j] = GeometricTensor(xs[j].clone(), o)
            mon.raises(lambda: inst.m(*args), "input-accepted", "%s: %s" % (k, kind), mismatch=kind, other=str(o)[:200], **ctx); mon.seen("module", k, kind, repr(ctx))
        mon.raises(lambda: inst.m(*[x.clone() for x in xs]), "plain-tensor-accepted", **ctx)
    return True


FN = dict(spaces=spaces, types=types, ops=ops, layers=layers, unsupported=unsupported, containers=containers)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); k = u["k"]
    for _ in range(12 if mon.tier == "quick" else 60):
        if k.startswith("m:"):
            with mon.guard("raises", kind=k, space=sp):
                if not module(mon, mon.rng, sp, s, k[2:]): break
            continue
        with mon.guard("raises", kind=k, space=sp): FN[k](mon, mon.rng, sp, s)
    mon.sample({"space": sp, "kind": k})
