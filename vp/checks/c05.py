from ..ref import *
from e2cnn.group import disentangle
from e2cnn.group.representation import build_from_discrete_group_representation
import e2cnn.group.representation as RR

RULE = "distinct (construction, arguments, element) matrices judged against the documented construction"
ASSUMPTIONS = ["representations up to size 48", "matrices compared to 1e-7",
               "rebuilding from explicit matrices (numerical optimisation inside the library) explored up to size 8 and judged at 1e-4"]

SPECS_Q = [("C", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16)] + [("D", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)] + [("SO2", 5), ("SO2", 8), ("O2", 5), ("O2", 7)]
SPECS_T = [("C", n) for n in range(1, 31)] + [("D", n) for n in range(1, 19)] + [("SO2", k) for k in range(1, 10)] + [("O2", k) for k in range(1, 10)]


def units(tier, rng):
    us = []
    for s in (SPECS_Q if tier == "quick" else SPECS_T):
        for what in ("build", "restrict", "algebra"):
            us.append({"what": what, "g": s})
    for s in [("C", 2), ("C", 3), ("C", 4), ("D", 2), ("D", 3), ("C", 6), ("D", 4)] + ([("D", 1), ("C", 5), ("C", 8)] if tier != "quick" else []):
        us.append({"what": "discrete", "g": s})
    for sp in SPACES + ([("rot", 9), ("fliprot", 7, .2), ("rot", 12), ("fliprot", 3, 1.)] if tier != "quick" else []):
        us.append({"what": "of_space", "g": sp})
    return us


SPACES = [("triv",), ("flip", 0.), ("flip", .7), ("rot", 2), ("rot", 4), ("rot", 6), ("rot", -1, 5), ("fliprot", 2, .5), ("fliprot", 4, 0.), ("fliprot", 5, 1.2), ("fliprot", -1, 4, .3)]


def run(mon, u):
    globals()[u["what"]](mon, tup(u["g"]))


def same(mon, spec, g, r, fn, key, label, n=14):
    for e in sample_elements(spec, mon.rng, n):
        m = np.asarray(r(e))
        mon.close(m, fn(e), key, "%s at %s" % (label, e), atol=1e-7, spec=spec)
        mon.seen(key, spec, label, e)


def build(mon, spec):
    g = grp(spec); rng = mon.rng
    for l in build_labels(spec, rng, n_random=10, induced_limit=60):
        r = build_rep(g, spec, l)
        same(mon, spec, g, r, lambda e: rep_ref(g, spec, l, e), "matrix:" + l[0], str(l))
        if l[0] in ("quotient", "induced", "regular"):
            mon.check(build_rep(g, spec, l) == r, "stable", spec=spec, label=l)
            mon.check(np.allclose(r.change_of_basis @ r.change_of_basis.T, np.eye(r.size)), "orthogonal-cob", spec=spec, label=l)
    if spec[0] == "O2":
        for k in range(0, 4):
            sg, par, ch = g.subgroup((None, -1))
            r = g.induced_representation((None, -1), sg.irrep(k))
            ir = lambda t: irrep_ref(("SO2", 9), (k,), t)
            d = ir(0.).shape[0]

            def M(e):
                # cosets: eH (rotations) and fH ; basis (e, f)
                out = np.zeros((2 * d, 2 * d)); f, t = e
                for i, rep in enumerate([(0, 0.), (1, 0.)]):
                    gr = mul(("O2", 9), e, rep)
                    j = gr[0]
                    h = mul(("O2", 9), inv(("O2", 9), [(0, 0.), (1, 0.)][j]), gr)
                    out[j * d:(j + 1) * d, i * d:(i + 1) * d] = ir(h[1])
                return out
            same(mon, spec, g, r, M, "matrix:induced-O2", "induced from SO2 freq %d" % k)
        r = g.quotient_representation((None, -1))
        same(mon, spec, g, r, lambda e: np.eye(2) if e[0] == 0 else np.array([[0, 1.], [1., 0]]), "matrix:quotient-O2", "quotient O2/SO2")
        mon.raises(lambda: g.quotient_representation((0., 1)), "infinite-induction", "quotient by a finite subgroup of O2")
    if spec[0] in ("SO2", "O2"):
        mon.raises(lambda: g.regular_representation, "infinite-regular", "regular representation of a continuous group")
    # documented restrictions of the API
    if spec[0] in ("C", "D") and g.order() > 1:
        sid = {"C": 1, "D": (None, 1)}[spec[0]]
        sg = g.subgroup(sid)[0]
        mon.raises(lambda: g.induced_representation(sid, directsum([sg.trivial_representation] * 2)), "induce-reducible")


def of_space(mon, sp):
    """representations asked of a space are those of its fibre group, with the documented matrices"""
    s = space(sp); spec = space_gspec(sp); g = s.fibergroup; rng = mon.rng
    mats = lambda r, fn, key, label: same(mon, spec, g, r, fn, key, label, 8)
    for i in irrep_ids(spec, maxf=4):
        r = s.irrep(*i)
        mats(r, lambda e: irrep_ref(spec, i, e), "space:irrep", str(i))
        mon.check(r is g.irrep(*i) and s.irreps[r.name] is r and s.representations[r.name] is r, "space:irrep", "not the group's own", space=sp, id=i)
    mats(s.trivial_repr, lambda e: np.eye(1), "space:trivial", "trivial")
    mon.check(all(n == r.name and r.group == g for n, r in s.representations.items()), "space:representations", space=sp)
    if all_elements(spec) is None:
        mon.raises(lambda: s.regular_repr, "infinite-regular", "regular representation of a continuous group")
        return
    mats(s.regular_repr, lambda e: rep_ref(g, spec, ("regular",), e), "space:regular", "regular")
    for id in subgroup_ids(spec, rng):
        if len(all_elements(spec)) % sub_order(spec, id): continue
        mats(s.quotient_repr(id), lambda e: rep_ref(g, spec, ("quotient", id), e), "space:quotient", str(id))
        ss = subgroup_spec(spec, id); sg = g.subgroup(id)[0]
        for i in irrep_ids(ss)[:3]:
            mats(s.induced_repr(id, sg.irrep(*i)), lambda e: induced_ref(spec, id, i, e), "space:induced", "%s %s" % (id, i))


def restrict(mon, spec):
    g = grp(spec); rng = mon.rng
    labels = build_labels(spec, rng, n_random=4, maxsize=24, maxf=7, induced_limit=6)
    ids = subgroup_ids(spec, rng)
    pairs = [(l, i) for l in labels for i in ids]
    lim = 220 if mon.tier == "quick" else 1500
    irr = [p for p in pairs if p[0][0] == "irrep"]
    oth = [p for p in pairs if p[0][0] != "irrep"]
    if len(irr) > lim: irr = [irr[int(i)] for i in rng.choice(len(irr), lim, replace=False)]
    if len(oth) > lim: oth = [oth[int(i)] for i in rng.choice(len(oth), lim, replace=False)]
    for l, id in irr + oth:
        r = build_rep(g, spec, l)
        before = (np.array(r.change_of_basis), list(r.irreps), set(r.supported_nonlinearities))
        rr = r.restrict(id)
        ss = subgroup_spec(spec, id)
        sg, par, _ = g.subgroup(id)
        mon.check(rr.group == sg and rr.size == r.size, "restrict-group", spec=spec, rep=l, id=id)
        for h in sample_elements(ss, rng, 6):
            want = np.asarray(r(par(h)))
            mon.close(np.asarray(rr(h)), want, "restrict", "%s to %s at %s" % (l, id, h), atol=1e-7, spec=spec)
            mon.close(want, mat_at(spec, l, embed(spec, id, h), g, id, h, r), "restrict-embed", "%s to %s at %s" % (l, id, h), atol=1e-7, spec=spec)
            mon.seen("restrict", spec, l, id, h)
        mon.check(np.array_equal(before[0], r.change_of_basis) and before[1] == r.irreps and before[2] == r.supported_nonlinearities,
                  "restrict-mutates", spec=spec, rep=l, id=id)
    # restriction in two steps is restriction to the smaller group
    if spec[0] in ("C", "D"):
        for l in labels[-6:]:
            r = build_rep(g, spec, l)
            id = ids[int(rng.integers(len(ids)))]
            ss = subgroup_spec(spec, id); sg, par, _ = g.subgroup(id)
            id2s = subgroup_ids(ss); id2 = id2s[int(rng.integers(len(id2s)))]
            sg2, par2, _ = sg.subgroup(id2)
            rr = r.restrict(id).restrict(id2)
            for h in all_elements(spec_of(sg2))[:12]:
                mon.close(np.asarray(rr(h)), np.asarray(r(par(par2(h)))), "restrict-twice", atol=1e-7, spec=spec, rep=l, ids=(id, id2))


def mat_at(spec, l, fa, g, id, h, r):
    """reference matrix at an embedded element"""
    if spec[0] in ("C", "D"): return rep_ref(g, spec, l, elt(spec, fa))
    e = fa[1] if spec[0] == "SO2" else fa
    return rep_ref(g, spec, l, e)


def algebra(mon, spec):
    g = grp(spec); rng = mon.rng
    n = 25 if mon.tier == "quick" else 150
    for t in range(n):
        ls = rep_specs(spec, rng, int(rng.integers(1, 5)), maxsize=12)
        rs = [build_rep(g, spec, l) for l in ls]
        size = sum(r.size for r in rs)
        blk = lambda e: block_diag([np.asarray(r(e)) for r in rs])
        before = [(r.change_of_basis.copy(), list(r.irreps), r.name) for r in rs]
        s = directsum(rs)
        mon.check(s.size == size and s.irreps == sum([r.irreps for r in rs], []), "sum-irreps", spec=spec, ls=ls)
        same(mon, spec, g, s, blk, "directsum", str(ls), 6)
        s2 = directsum(rs, name="vp_named_%d" % t)
        mon.check(s2.name == "vp_named_%d" % t, "sum-name")
        same(mon, spec, g, s2, blk, "directsum", str(ls), 3)
        if len(rs) >= 2:
            same(mon, spec, g, rs[0] + rs[1], lambda e: block_diag([np.asarray(rs[0](e)), np.asarray(rs[1](e))]), "plus", str(ls[:2]), 3)
        Q = rand_inv(size, rng)
        Q0 = Q.copy(); Qi = np.linalg.inv(Q)
        sc = directsum(rs, change_of_basis=Q, name="vp_sc_%d" % t)
        same(mon, spec, g, sc, lambda e: Q0 @ blk(e) @ Qi, "directsum-cob", str(ls), 5)
        cb = change_basis(s, Q, name="vp_cb_%d" % t)
        same(mon, spec, g, cb, lambda e: Q0 @ blk(e) @ Qi, "change-basis", str(ls), 5)
        mon.check(set(cb.supported_nonlinearities) == set(), "change-basis-flags", "default must not claim support", spec=spec)
        cb2 = change_basis(cb, Qi, name="vp_cb2_%d" % t, supported_nonlinearities=["norm"])
        same(mon, spec, g, cb2, blk, "change-basis-back", str(ls), 4)
        mon.check(set(cb2.supported_nonlinearities) == {"norm"}, "change-basis-flags")
        mon.check(np.array_equal(Q, Q0), "args-mutated", "change of basis argument modified")
        for r, b in zip(rs, before):
            mon.check(np.array_equal(r.change_of_basis, b[0]) and r.irreps == b[1] and r.name == b[2], "operands-mutated", spec=spec, ls=ls)
        # splitting
        P0 = np.eye(size)[rng.permutation(size)]
        for tag, rep in (("plain", s), ("permuted", change_basis(s, P0, name="vp_pm_%d" % t, supported_nonlinearities=["norm"]))):
            split(mon, spec, g, rep, rs, tag, ls)
        if spec[0] in ("C", "D") or True:
            ids = subgroup_ids(spec, rng)
            id = ids[int(rng.integers(len(ids)))]
            rep = s.restrict(id)
            split(mon, spec_of_sub(spec, id), rep.group, rep, None, "restricted %s" % (id,), ls)


def spec_of_sub(spec, id):
    return subgroup_spec(spec, id)


def split(mon, spec, g, rep, parts_, tag, ls):
    cob0 = rep.change_of_basis.copy()
    P, pieces = disentangle(rep)
    ctx = dict(spec=spec, rep=ls, tag=tag)
    mon.check(np.array_equal(cob0, rep.change_of_basis), "split-mutates", **ctx)
    mon.check(P.shape == (rep.size, rep.size) and np.allclose(P @ P.T, np.eye(rep.size)) and set(np.unique(P)) <= {0., 1.}, "split-permutation", **ctx)
    if not mon.check(sum(p.size for p in pieces) == rep.size, "split-size", **ctx): return
    for e in sample_elements(spec, mon.rng, 6):
        mon.close(P @ np.asarray(rep(e)) @ P.T, block_diag([np.asarray(p(e)) for p in pieces]), "split", "at %s" % (e,), atol=1e-7, **ctx)
        mon.seen("split", spec, ls, tag, e)
    mon.check(sorted(sum([p.irreps for p in pieces], [])) == sorted(rep.irreps), "split-irreps", **ctx)
    mon.check(all(p.group == g for p in pieces), "split-group", **ctx)
    for p in pieces[:4]:
        P2, pp = disentangle(p)
        mon.check(len(pp) == 1, "split-indecomposable", "a piece can be split further", **ctx)
    # as many pieces as the direct-sum structure (finest partition by shared irreps/components)
    A = ~np.isclose(rep.change_of_basis, 0)
    comp = list(range(rep.size)); col = []
    for i, nme in enumerate(rep.irreps): col += [i] * g.irreps[nme].size
    # union find on rows through irreps
    par = list(range(rep.size))

    def find(x):
        while par[x] != x: x = par[x]
        return x
    first = {}
    for j in range(rep.size):
        for i in range(rep.size):
            if A[i, j]:
                k = col[j]
                if k in first: par[find(i)] = find(first[k])
                else: first[k] = i
    mon.check(len({find(i) for i in range(rep.size)}) == len(pieces), "split-count", "%d pieces" % len(pieces), **ctx)


def discrete(mon, spec):
    g = grp(spec); rng = mon.rng
    els = all_elements(spec)
    ls = [("irrep", i) for i in irrep_ids(spec)] + [("regular",)] + [("sum", [("irrep", irrep_ids(spec)[-1]), ("irrep", irrep_ids(spec)[0])])]
    if g.order() > 8: ls = ls[:3]
    n = 0
    for l in ls:
        plain = {e: rep_ref(g, spec, l, e) for e in els}
        d = plain[els[0]].shape[0]
        if d > 6: continue
        n += 1
        r = None
        for attempt in range(24):    # the library runs a randomised optimiser; only a persistent failure counts
            if attempt % 6 == 0:
                Q = rand_orth(d, rng)
                mats = {e: Q @ m @ Q.T for e, m in plain.items()}
            try:
                np.random.seed(int(rng.integers(1 << 30)))
                r = build_from_discrete_group_representation(mats, "vp_disc_%d" % n, g, ["norm"])
                break
            except (ZeroDivisionError, AssertionError) as ex:
                last = ex
        if not mon.check(r is not None, "discrete-build", "cannot rebuild: %r" % (None if r is not None else last), spec=spec, rep=l): continue
        if not mon.check(r.size == d, "discrete-size", spec=spec, rep=l): continue
        for e in els:
            mon.close(np.asarray(r(e)), mats[e], "discrete", "%s at %s" % (l, e), atol=1e-7, spec=spec)
            mon.close(ref_matrix(r, spec, e), mats[e], "discrete-decomposition", "%s at %s" % (l, e), atol=1e-4, spec=spec)
            mon.close(float(r.character(e)), float(np.trace(mats[e])), "discrete-character", atol=1e-6, spec=spec)
            mon.seen("discrete", spec, l, e)
    mats.pop(els[-1])
    if g.order() > 1:
        mon.raises(lambda: build_from_discrete_group_representation(mats, "vp_bad", g, []), "discrete-missing-element")
