import io, contextlib
from ..mods import *

RULE = "distinct (module, options, space, field types, honest or sabotaged behaviour, kind of sabotage, elements able to reveal it) runs of the equivariance self-check judged against the truth"
ASSUMPTIONS = ["judged for the modules whose self-check evaluates anything (nonlinearities, invariant maps, identity, reshuffling, restriction, disentangling, sequences of those); "
               "batch normalisation, pooling, dropout and merging modules define it as empty, convolutions and up-sampling read an image which is not part of the package",
               "a sabotaged module counts if, by the reference action, its deviation for some element exceeds 5 % of a unit (of the strength of the sabotage, and 1e-3); an honest one is run with tolerance 1e-3"]

SPS = [("flip", 0.), ("flip", .7), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 6), ("rot", 8), ("rot", -1, 2), ("fliprot", 2, np.pi / 2), ("fliprot", 3, 0.3), ("fliprot", 4, 0.), ("fliprot", 6, np.pi / 2), ("fliprot", -1, 2, np.pi / 2)] + MORE_SPACES[2:4]
KINDS = ["relu", "elu", "pointwise", "normnl", "indnormnl", "gated1", "gated2", "indgated", "concat", "vector", "gpool", "normpool", "indnormpool",
         "identity", "reshuffle", "restrict", "disentangle", "sequential"]


def exact(sp):
    """every testing element maps the grid to itself: the general self-check involves no interpolation"""
    gs = space_gspec(sp)
    return gs[0] in ("C", "D") and all(is_grid_symmetry(space_planar(sp, e)) for e in all_elements(gs))


def units(tier, rng):
    return [{"sp": sp, "k": k, "n": 4 if tier == "quick" else 10} for sp in SPS for k in KINDS if k != "sequential" or exact(sp)]


def selfcheck(m, **kw):
    """(raised, result)"""
    torch.manual_seed(3)
    with contextlib.redirect_stdout(io.StringIO()), torch.no_grad():
        try: return None, m.check_equivariance(**kw)
        except AssertionError as e: return e, None


def sequential(rng, sp, s):
    pl = pool_for(rng, sp, s, n=10, need=has("pointwise"), maxsize=8)
    t = Ty(sp, s, draw(rng, pl, int(rng.integers(1, 4)), maxsize=12, sp=sp, s=s))
    mods = [[enn.ELU(t.ft, inplace=bool(rng.integers(2))), enn.ReLU(t.ft, inplace=bool(rng.integers(2))), enn.InnerBatchNorm(t.ft), enn.PointwiseNonLinearity(t.ft, "p_tanh"), enn.IdentityModule(t.ft)][int(rng.integers(5))] for _ in range(int(rng.integers(1, 4)))]
    return Inst(enn.SequentialModule(*mods), [t], {"mods": [type(q).__name__ for q in mods], "inplace": [getattr(q, "_inplace", None) for q in mods]})


def sabotage(rng, inst, kind, gs):
    """the module, computing something else"""
    m = inst.m; f0 = m.forward; ot = m.out_type
    how = str(rng.choice(["constant", "constant", "sign", "matrix", "leak", "pattern"] if kind in ("identity", "sequential") else ["constant", "constant", "sign", "matrix", "leak"]))
    c = t32(rng.normal(size=(1, ot.size, 1, 1))) * 2
    if how == "sign":
        # a vector on which only some elements act
        c = torch.zeros(1, ot.size, 1, 1); i = int(rng.integers(len(ot.representations))); r = ot.representations[i]
        p = int(rng.integers(len(r.irreps))); o = sum(ot.fibergroup.irreps[q].size for q in r.irreps[:p])
        b = sum(q.size for q in ot.representations[:i])
        c[0, b:b + r.size, 0, 0] = 2 * t32(r.change_of_basis[:, o]) / float(np.linalg.norm(r.change_of_basis[:, o]))
    M = torch.eye(ot.size); k = int(rng.integers(ot.size)); M[k, k] = 3.
    ch = int(rng.integers(inst.tins[-1].size)); oc = int(rng.integers(ot.size))
    # weak deviations (still far above the tolerance), and deviations of a single position of a single sample
    amp = float(rng.choice([1., 1., .1, .01, .001])) if how in ("constant", "sign") else 1.
    spot = how in ("constant", "sign") and rng.integers(3) == 0; c = c * amp

    def forward(*xs):
        raw = xs[-1].tensor.clone(); y = f0(*xs); t = y.tensor
        if spot: t = t.clone(); t[:1, :, :1, :1] += c
        elif how in ("constant", "sign"): t = t + c
        elif how == "matrix": t = torch.einsum("oi,bihw->bohw", M, t)
        elif how == "leak": t = t.clone(); t[:, oc] += 2 * raw[:, ch]
        else:
            g = torch.Generator().manual_seed(7)
            t = t + 2 * torch.randn(t.shape[-2:], generator=g)
        return GeometricTensor(t, y.type)
    m.forward = forward
    return how, amp, bool(spot)


def deviates(rng, inst, kind, sp, how, amp):
    """the elements for which the sabotaged module is not equivariant, with the actual deviation"""
    m = inst.m; out = []; gs = spec_of(m.out_type.fibergroup); els = list(all_elements(gs) or sample_elements(gs, rng, 24))
    if kind == "restrict":
        up = space(sp).restrict(inst.opts["id"])[1]
    else: up = lambda e: e
    for _ in range(2):
        xs = [rng.normal(size=(3, t.size, 4, 4)) for t in inst.tins]
        run = lambda v: npy(m(*[GeometricTensor(t32(q), t.ft) for q, t in zip(v, inst.tins)]).tensor)
        for e in els:
            if how == "pattern":
                M = space_planar(sp, e)
                if not is_grid_symmetry(M): continue
                y = field_action(run(xs), np.asarray(m.out_type.representation(e)), M); z = run([field_action(q, t.rho(e), M) for q, t in zip(xs, inst.tins)])
            else:
                y = np.einsum("oi,bihw->bohw", np.asarray(m.out_type.representation(e)), run(xs)); z = run([np.einsum("oi,bihw->bohw", t.rho(up(e)), q) for q, t in zip(xs, inst.tins)])
            out.append(float(np.max(np.abs(y - z))))
    return max(out, default=0.), sum(q > max(.05 * amp, 1e-3) for q in out) // 2, len(els)


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; kind = u["k"]; gs = space_gspec(sp)
    for _ in range(u["n"]):
        inst = sequential(rng, sp, s) if kind == "sequential" else rand_module(rng, sp, s, kind)
        if inst is None: return
        m = inst.m.train(bool(rng.integers(2)))
        ctx = {"module": kind, "space": sp, "types": [q.specs for q in inst.tins], "options": inst.opts, "training": m.training}
        e, res = selfcheck(m, atol=1e-3, rtol=1e-3)
        mon.check(e is None, "honest", "the self-check rejects an equivariant module: %s" % str(e)[:200], **ctx)
        if e is None and mon.check(res is not None and len(res) > 0, "report", "no errors reported", **ctx):
            got = [q[0] for q in res]; want = list(m.out_type.gspace.testing_elements)
            mon.check(sorted(got, key=repr) == sorted(want, key=repr), "report", "the reported elements are not the testing elements", **ctx)
            mon.check(all(0 <= float(q[1]) <= 1e-2 for q in res), "report", "reported errors of an equivariant module are large", **ctx)
            if kind != "restrict" and gs[0] in ("C", "D"): mon.check(sorted(got) == sorted(all_elements(gs)), "elements", "the testing elements of a finite group are not all its elements", **ctx)
        mon.seen("honest", kind, repr(ctx))
        for _ in range(3):
            inst2 = Inst(inst.m, inst.tins, inst.opts); saved = m.__dict__.get("forward")
            how, amp, spot = sabotage(rng, inst2, kind, gs)
            try:
                dev, rev, tot = deviates(rng, inst2, kind, sp, how, amp)
                if dev > max(.05 * amp, 1e-3) and not (how == "pattern" and rev == 0):
                    e, res = selfcheck(m)
                    mon.check(e is not None, "sabotaged", "the self-check accepts a module whose deviation is %.3g for %d of %d elements" % (dev, rev, tot), sabotage=(how, amp, spot), **ctx)
                    mon.seen("sabotaged", kind, how, amp, spot, rev, tot, repr(ctx))
                else: mon.seen("harmless", kind, how)
            finally:
                m.__dict__.pop("forward", None)
    mon.sample({"space": sp, "kind": kind})
