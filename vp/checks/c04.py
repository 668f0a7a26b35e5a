from ..ref import *

RULE = "distinct (group, irrep, element) matrices and (irrep, irrep) character products judged, under several request orders"
ASSUMPTIONS = ["frequency labels up to 16 for continuous groups"]


def units(tier, rng):
    us = []
    nc = list(range(1, 25)) + [32] if tier == "quick" else list(range(1, 65))
    nd = list(range(1, 19)) if tier == "quick" else list(range(1, 41))
    for n in nc: us.append({"g": ("C", n)})
    for n in nd: us.append({"g": ("D", n)})
    for r in range(4 if tier == "quick" else 16):
        us.append({"g": ("SO2", int(rng.integers(0, 9))), "r": r})
        us.append({"g": ("O2", int(rng.integers(0, 9))), "r": r})
    return us


def bad_labels(spec):
    N = spec[1]
    if spec[0] == "C": return [(-1,), (N // 2 + 1,), (N,), (N + 1,)]
    if spec[0] == "D":
        return [(0, k) for k in range(1, N // 2 + 1) if 2 * k != N] + [(2, 0), (-1, 0), (1, -1), (1, N // 2 + 1), (0, N), (0, -1)]
    if spec[0] == "SO2": return [(-1,), (-2,)]
    return [(0, 1), (0, 2), (2, 1), (1, -1), (-1, 1)]


def run(mon, u):
    spec = tup(u["g"]); rng = mon.rng
    for attempt in range(3):
        g = grp(spec, fresh=(attempt > 0))
        finite = spec[0] in ("C", "D")
        ids = irrep_ids(spec) if finite else irrep_ids(spec, maxf=16)
        order = [ids[i] for i in (rng.permutation(len(ids)) if attempt else range(len(ids)))]
        if finite:
            mon.check(set(g.irreps) == {irrep_name(i) for i in ids}, "irrep-set", "%s" % sorted(g.irreps), spec=spec)
        else:
            mon.check(set(g.irreps) >= {irrep_name(i) for i in irrep_ids(spec)}, "irrep-set", "%s" % sorted(g.irreps), spec=spec)
        got = {}
        for id in order:
            got[id] = g.irrep(*id)
            if attempt == 2:   # interleave a rejected request
                for b in bad_labels(spec)[:3]:
                    try: g.irrep(*b)
                    except Exception: pass
        els = all_elements(spec) if finite else sample_elements(spec, rng, 30)
        if len(els) > 40: els = sample_elements(spec, rng, 40)
        for id, r in got.items():
            mon.check(r is g.irrep(*id) or r == g.irrep(*id), "irrep-stable", spec=spec, id=id)
            mon.check(r.irreducible and r.name in g.irreps and g.irreps[r.name] is r, "irrep-registered", spec=spec, id=id)
            mon.check(r.name in g.representations or not finite, "irrep-in-representations", spec=spec, id=id)
            mon.check(r.irreps == [r.name] and np.allclose(r.change_of_basis, np.eye(r.size)), "irrep-self", spec=spec, id=id)
            mon.check(r.attributes.get("frequency") == id[-1], "label-frequency", spec=spec, id=id)
            if len(id) == 2: mon.check(r.attributes.get("flip_frequency") == id[0], "label-flip", spec=spec, id=id)
            for e in els:
                m = np.asarray(r(e))
                mon.close(m, irrep_ref(spec, id, e), "irrep-matrix", "irrep %s at %s" % (id, e), atol=1e-7, spec=spec)
                mon.seen("matrix", spec, id, e)
        # the matrices really come from irreps with these labels: characters, irreducibility, type
        chars(mon, spec, g, got)
        mon.check(g.trivial_representation.size == 1 and g.trivial_representation.is_trivial() and
                  all(np.allclose(g.trivial_representation(e), 1) for e in els), "trivial", spec=spec)
        for b in bad_labels(spec):
            mon.raises(lambda: g.irrep(*b), "bad-label", "label %s of %s" % (b, spec))
            mon.check(set(g.irreps) <= {irrep_name(i) for i in ids}, "irrep-set-after-bad", spec=spec)
        if finite and attempt < 2 and len(els) <= 72:
            complete(mon, spec, g)
    # growing the continuous groups through the factory
    if spec[0] in ("SO2", "O2"):
        fac = G.so2_group if spec[0] == "SO2" else G.o2_group
        g = fac(2); before = {i: g.irrep(*i) for i in irrep_ids(spec, maxf=2)}
        g.irrep(*((7,) if spec[0] == "SO2" else (1, 7)))
        g = fac(5); g = fac(9)
        for i in irrep_ids(spec, maxf=9):
            mon.check(irrep_name(i) in g.irreps and irrep_name(i) in g.representations, "factory-growth", spec=spec, id=i)
            for e in sample_elements(spec, rng, 10):
                mon.close(np.asarray(g.irrep(*i)(e)), irrep_ref(spec, i, e), "irrep-matrix", "irrep %s at %s" % (i, e), atol=1e-7, spec=spec)
        for i, r in before.items():
            for e in sample_elements(spec, rng, 10):
                mon.close(np.asarray(r(e)), irrep_ref(spec, i, e), "irrep-matrix", "old irrep %s at %s" % (i, e), atol=1e-7, spec=spec)


def average_set(spec, maxf):
    els = all_elements(spec)
    if els is not None: return els
    n = 2 * maxf + 3
    a = [TAU * k / n for k in range(n)]
    return a if spec[0] == "SO2" else [(f, t) for f in (0, 1) for t in a]


def chars(mon, spec, g, got):
    av = average_set(spec, 16)
    if len(got) > 12:
        ks = list(got); keep = [ks[int(i)] for i in mon.rng.choice(len(ks), 12, replace=False)]
        got = {k: got[k] for k in keep}
    X = {id: np.array([float(np.trace(np.asarray(r(e)))) for e in av]) for id, r in got.items()}
    C = {id: np.array([float(r.character(e)) for e in av]) for id, r in got.items()}
    for a in got:
        mon.close(C[a], X[a], "character", "irrep %s" % (a,), atol=1e-7, spec=spec)
        for b in got:
            v = float(X[a] @ X[b]) / len(av)
            if a == b:
                mon.close(v, float(got[a].sum_of_squares_constituents), "type", "<chi,chi> of %s" % (a,), atol=1e-6, spec=spec)
            else:
                mon.close(v, 0., "inequivalent", "<chi%s,chi%s>" % (a, b), atol=1e-6, spec=spec)
            mon.seen("pair", spec, a, b)
        # irreducible over the reals: the only symmetric matrices commuting with everything are scalars
        r = got[a]; d = r.size
        if d > 1:
            rows = []
            for e in av[:60]:
                m = np.asarray(r(e))
                for i in range(d):
                    for j in range(i, d):
                        pass
                basis = []
                for i in range(d):
                    for j in range(i, d):
                        B = np.zeros((d, d)); B[i, j] = B[j, i] = 1.
                        basis.append((m @ B - B @ m).reshape(-1))
                rows.append(np.array(basis).T)
            s = np.linalg.svd(np.concatenate(rows, 0), compute_uv=False)
            mon.check(int((s < 1e-7).sum()) + (len(basis) - len(s)) == 1, "irreducible", "irrep %s: symmetric commutant" % (a,), spec=spec)


def complete(mon, spec, g):
    els = all_elements(spec)
    n = len(els)
    tot = sum(r.size ** 2 // r.sum_of_squares_constituents for r in g.irreps.values())
    mon.check(tot == n, "complete", "sum of d^2/type = %d, order %d" % (tot, n), spec=spec)
    reg = g.regular_representation
    for name, r in g.irreps.items():
        want = r.size // r.sum_of_squares_constituents
        mon.check(reg.irreps.count(name) == want, "regular-multiplicity", "%s occurs %d times, expected %d" % (name, reg.irreps.count(name), want), spec=spec)
        mon.seen("mult", spec, name)
    # every induced representation decomposes with integral multiplicities given by Frobenius reciprocity
    rng = mon.rng
    ids = subgroup_ids(spec)
    for s in [ids[int(i)] for i in rng.integers(0, len(ids), 4)]:
        ss = subgroup_spec(spec, s)
        for i in irrep_ids(ss)[:4]:
            if n // sub_order(spec, s) * irrep_dim(ss, i) > 40: continue
            r = build_rep(g, spec, ("induced", s, i))
            X = np.array([np.trace(induced_ref(spec, s, i, e)) for e in els])
            for name, irr in g.irreps.items():
                Y = np.array([np.trace(irrep_ref(spec, id_of_name(name), e)) for e in els])
                m = float(X @ Y) / n / irr.sum_of_squares_constituents
                mon.check(abs(m - r.irreps.count(name)) < 1e-6, "multiplicity", "%s in induced %s %s: %d vs %.3f" % (name, s, i, r.irreps.count(name), m), spec=spec)
