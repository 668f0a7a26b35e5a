from ..ref import *
from e2cnn.group import disentangle, Representation

RULE = "distinct (representation, element pair) matrix laws judged"
ASSUMPTIONS = ["representations up to size 48 (quick)", "matrix laws judged to 1e-7"]

SPECS_Q = [("C", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16)] + [("D", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)] + [("SO2", 3), ("SO2", 7), ("O2", 3), ("O2", 6)]
SPECS_T = [("C", n) for n in range(1, 37)] + [("D", n) for n in range(1, 25)] + [("SO2", k) for k in range(0, 12)] + [("O2", k) for k in range(0, 12)]


def units(tier, rng):
    return [{"g": s, "r": r} for s in (SPECS_Q if tier == "quick" else SPECS_T) for r in range(2 if tier == "quick" else 5)]


def averaging(spec, maxf):
    """finite set whose average equals the group average for frequencies <= maxf"""
    if spec[0] in ("C", "D"): return all_elements(spec)
    n = 2 * maxf + 3
    a = [TAU * k / n for k in range(n)]
    return a if spec[0] == "SO2" else [(f, t) for f in (0, 1) for t in a]


def run(mon, u):
    spec = tup(u["g"]); g = grp(spec); rng = mon.rng
    labels = build_labels(spec, rng, n_random=12 if mon.tier == "quick" else 40)
    reps = []
    for l in labels:
        r = build_rep(g, spec, l)
        reps.append((l, r))
    # restrictions of representations of bigger groups
    for big, sid in super_specs(spec):
        gb = grp(big)
        for l in rep_specs(big, rng, 3, maxsize=24, maxf=6):
            r = build_rep(gb, big, l).restrict(sid)
            if mon.check(r.group == g, "restricted-group", "%s to %s" % (big, sid)):
                reps.append((("restrict", big, sid, l), r))
    # pieces
    for l, r in list(reps):
        if rng.random() < .25 and r.size > 1:
            _, ps = disentangle(r)
            reps += [(("piece", i, l), p) for i, p in enumerate(ps)]
    # built by hand from the parts of the others: matrices and characters from a callable or a table, the inverse given or not, names never used
    for l, r in [reps[int(i)] for i in rng.integers(0, len(reps), size=8)]:
        if r.size > 16: continue
        kw = {}; fin = spec[0] in ("C", "D")
        c = int(rng.integers(3))
        if c == 1: kw["representation"] = r.representation
        if c == 2 and fin: kw["representation"] = {e: np.array(r(e)) for e in g.elements}
        c = int(rng.integers(3))
        if c == 1: kw["character"] = (lambda e, r=r: float(np.trace(np.asarray(r(e)))))
        if c == 2 and fin: kw["character"] = {e: float(np.trace(np.asarray(r(e)))) for e in g.elements}
        if rng.integers(2): kw["change_of_basis_inv"] = np.linalg.inv(np.asarray(r.change_of_basis, dtype=float))
        h = Representation(g, "vp_hand_%d" % int(rng.integers(1 << 40)), list(r.irreps), np.array(r.change_of_basis), supported_nonlinearities=list(r.supported_nonlinearities), note=7, **kw)
        mon.check(h.supported_nonlinearities == set(r.supported_nonlinearities) and h.attributes.get("note") == 7 and list(h.irreps) == list(r.irreps), "hand-built", "%s" % (l,), spec=spec)
        reps.append((("hand", tuple(sorted(kw)), l), h))
        if rng.integers(2) and h.size < 12:
            k = [x for x in (h, reps[int(rng.integers(len(reps)))][1]) if x.size < 12]
            reps.append((("hand-sum", l), directsum(k, name="vp_hsum_%d" % int(rng.integers(1 << 40)))))
            Q = rand_orth(h.size, rng)
            reps.append((("hand-basis", l), change_basis(h, Q, name="vp_hcob_%d" % int(rng.integers(1 << 40)))))
    for name, r in g.representations.items():
        mon.check(r.name == name and r.group == g, "registered-name", "%s" % name, spec=spec)
    for l, r in reps:
        judge(mon, spec, g, l, r)
    equality(mon, spec, g, reps)


def judge(mon, spec, g, l, r):
    rng = mon.rng
    ctx = dict(spec=spec, rep=l)
    els = sample_elements(spec, rng, 12 if r.size > 16 else 20)
    A = r.change_of_basis; Ai = r.change_of_basis_inv
    mon.check(A.shape == (r.size, r.size) and Ai.shape == A.shape, "cob-shape", **ctx)
    mon.close(np.asarray(A @ Ai), np.eye(r.size), "cob-inv", atol=1e-8, **ctx)
    mon.check(sum(g.irreps[n].size for n in r.irreps) == r.size, "irreps-size", **ctx)
    orth = np.allclose(A @ A.T, np.eye(r.size), atol=1e-9)
    M = {}
    for e in els:
        m = np.asarray(r(e))
        M[e] = m
        if not mon.check(m.shape == (r.size, r.size) and np.isrealobj(m), "matrix-shape", **ctx): return
        mon.close(m, ref_matrix(r, spec, e), "decomposition", "rho(%s) vs Q (+)psi Q^-1 (reference irreps)" % (e,), atol=1e-7, **ctx)
        mon.close(m, A @ block_diag([np.asarray(g.irreps[n](e)) for n in r.irreps]) @ Ai, "decomposition-own", "rho(%s)" % (e,), atol=1e-7, **ctx)
        ii = Ai @ m @ A
        mon.close(ii @ ii.T, np.eye(r.size), "orthogonal", "rho(%s)" % (e,), atol=1e-7, **ctx)
        if orth: mon.close(m @ m.T, np.eye(r.size), "orthogonal", "rho(%s)" % (e,), atol=1e-7, **ctx)
        mon.close(np.asarray(r(g.inverse(e))) @ m, np.eye(r.size), "inverse-law", "rho(%s)" % (e,), atol=1e-7, **ctx)
        mon.close(float(r.character(e)), float(np.trace(m)), "character", "chi(%s)" % (e,), atol=1e-7, **ctx)
        mon.seen("matrix", spec, l, e)
    mon.close(np.asarray(r(g.identity)), np.eye(r.size), "identity-law", atol=1e-9, **ctx)
    for _ in range(12):
        a, b = [els[int(i)] for i in rng.integers(0, len(els), 2)]
        mon.close(np.asarray(r(g.combine(a, b))), M[a] @ M[b], "homomorphism", "rho(%s %s)" % (a, b), atol=1e-7, **ctx)
        mon.seen("product", spec, l, a, b)
    # a call must not be influenced by previous calls (re-evaluate)
    e = els[int(rng.integers(len(els)))]
    mon.close(np.asarray(r(e)), M[e], "repeatable", atol=0, **ctx)
    # triviality
    maxf = max([id_of_name(n)[-1] for n in r.irreps])
    avg = averaging(spec, maxf)
    if len(avg) * r.size ** 2 < 40000:
        P = sum(np.asarray(r(e)) for e in avg) / len(avg)
        has = np.trace(P) > 0.5
        mon.check(bool(r.contains_trivial()) == bool(has), "contains-trivial", "%s" % r.contains_trivial(), **ctx)
        triv = np.allclose(P, np.eye(r.size)) and r.size == 1
        if r.is_trivial():
            mon.check(triv, "is-trivial", "claims to be trivial", **ctx)
        elif triv and np.allclose(A, np.eye(1)):
            mon.check(False, "is-trivial", "trivial but denies it", **ctx)
        else:
            mon.evals += 1
    mon.sample({"group": g.name, "rep": str(l), "size": r.size, "irreps": str(r.irreps[:6])})


def equality(mon, spec, g, reps):
    rng = mon.rng
    # rebuilt objects are equal, different ones are not
    g2 = grp(spec, fresh=True)
    for l, r in reps[:30]:
        if l[0] in ("irrep", "regular", "quotient", "induced", "sum", "sumcob", "cob", "sumgl", "cobgl"):
            r2 = build_rep(g2, spec, l)
            if g2 == g:
                mon.check(r == r2 and r2 == r, "eq-rebuilt", "independently rebuilt representation differs", spec=spec, rep=l)
                mon.check(hash(r) == hash(r2), "eq-hash", spec=spec, rep=l)
    for _ in range(150):
        (l1, r1), (l2, r2) = [reps[int(i)] for i in rng.integers(0, len(reps), 2)]
        same = r1.size == r2.size and r1.irreps == r2.irreps and np.allclose(r1.change_of_basis, r2.change_of_basis)
        if not same:
            mon.check(not (r1 == r2), "eq-different", "%s == %s" % (l1, l2), spec=spec)
        mon.seen("eq", spec, l1, l2)
    # same name, different content
    base = [r for l, r in reps if l[0] == "irrep"]
    for _ in range(20):
        r1 = base[int(rng.integers(len(base)))]; r2 = base[int(rng.integers(len(base)))]
        k1, k2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        a = directsum([r1] * k1, name="vp_same"); b = directsum([r2] * k2, name="vp_same")
        mon.check((a == b) == (r1 is r2 and k1 == k2), "eq-same-name", "%d x %s vs %d x %s" % (k1, r1.name, k2, r2.name), spec=spec)
        Q = rand_orth(a.size, rng)
        c = change_basis(a, Q, name="vp_same", supported_nonlinearities=a.supported_nonlinearities)
        mon.check((a == c) == np.allclose(Q, np.eye(a.size)), "eq-same-name-cob", spec=spec)
    mon.check(not (base[0] == 3) and not (base[0] == None), "eq-foreign")
