from ..ref import *
from e2cnn.group import disentangle

RULE = "distinct (representation, advertised nonlinearity, element) commutation tests judged"
ASSUMPTIONS = ["representations up to size 40", "advertised support which the caller asserted explicitly (change_basis/Representation arguments) is not judged"]

SPECS_Q = [("C", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)] + [("D", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 10)] + [("SO2", 5), ("O2", 5)]
SPECS_T = [("C", n) for n in range(1, 25)] + [("D", n) for n in range(1, 17)] + [("SO2", 6), ("O2", 7)]


def units(tier, rng):
    return [{"g": s, "r": r} for s in (SPECS_Q if tier == "quick" else SPECS_T) for r in range(2 if tier == "quick" else 6)]


def run(mon, u):
    spec = tup(u["g"]); g = grp(spec); rng = mon.rng
    reps = [(l, build_rep(g, spec, l)) for l in build_labels(spec, rng, n_random=0, maxsize=40)
            if l[0] not in ("cob",)]
    # mixed direct sums of everything provided, with and without a change of basis
    base = [r for l, r in reps]
    for t in range(60 if mon.tier == "quick" else 100):
        rs = [base[int(i)] for i in rng.integers(0, len(base), int(rng.integers(2, 4)))]
        if sum(r.size for r in rs) > 40: continue
        s = directsum(rs)
        reps.append((("sum", [r.name for r in rs]), s))
        Q = rand_orth(s.size, rng) if t % 3 else rand_inv(s.size, rng)
        if t % 5 == 0: Q = np.eye(s.size)[rng.permutation(s.size)]
        if t % 4 == 3: Q = basis_change(["sumcob", "sumgl"][int(rng.integers(2))], s.size, 10 * int(rng.integers(100)) + int(rng.integers(3)))
        reps.append((("sumcob", [r.name for r in rs], t), directsum(rs, change_of_basis=Q, name="vp_c06_%d" % t)))
    # same representation repeated (maximal flag intersection)
    for t in range(12):
        r = base[int(rng.integers(len(base)))]
        if 2 * r.size > 40: continue
        reps.append((("twice", r.name), directsum([r, r])))
        reps.append((("twicecob", r.name), directsum([r, r], change_of_basis=rand_orth(2 * r.size, rng), name="vp_tw_%d" % t)))
    for big, sid in super_specs(spec):
        gb = grp(big)
        bl = build_labels(big, rng, n_random=0, maxsize=24, induced_limit=10)
        for l in [bl[int(i)] for i in rng.integers(0, len(bl), 8)]:
            if l[0] == "cob": continue
            r = build_rep(gb, big, l).restrict(sid)
            reps.append((("restrict", big, sid, l), r))
    for l, r in list(reps):
        if rng.random() < .4 and r.size > 1:
            _, ps = disentangle(r)
            if len(ps) > 1:
                reps += [(("piece", i, l), p) for i, p in enumerate(ps)]
    for l, r in reps:
        judge(mon, spec, g, l, r)


def judge(mon, spec, g, l, r):
    rng = mon.rng
    els = sample_elements(spec, rng, 10)
    fl = sorted(r.supported_nonlinearities)
    n = r.size
    x = rng.normal(size=(n, 5))
    for e in els:
        m = np.asarray(r(e))
        for f in fl:
            ctx = dict(spec=spec, rep=l, e=e)
            if f == "pointwise":
                for fn in (lambda z: np.maximum(z, 0), lambda z: np.where(z > 0, z, np.exp(np.minimum(z, 0)) - 1), lambda z: z ** 2):
                    mon.close(fn(m @ x), m @ fn(x), "pointwise", "f(rho x) != rho f(x)", atol=1e-7, **ctx)
            elif f == "norm":
                mon.close(np.linalg.norm(m @ x, axis=0), np.linalg.norm(x, axis=0), "norm", "norm not preserved", atol=1e-7, **ctx)
            elif f == "gated":
                mon.evals += 1
            elif f == "gate":
                mon.close(m, np.eye(n), "gate", "gate representation is not invariant", atol=1e-7, **ctx)
            elif f == "concatenated":
                # relu(x), relu(-x) transform among themselves: m must be a signed permutation
                a = np.abs(m)
                mon.check(np.allclose(a, np.round(a), atol=1e-7) and np.allclose(a.sum(0), 1) and np.allclose(a.sum(1), 1),
                          "concatenated", "not a signed permutation", **ctx)
            elif f.startswith("induced_norm_") or f.startswith("induced_gated_"):
                k = int(f.split("_")[-1])
                if not mon.check(n % k == 0, "induced-size", "%s on size %d" % (f, n), **ctx): continue
                b = m.reshape(n // k, k, n // k, k).transpose(0, 2, 1, 3)
                nz = np.linalg.norm(b, axis=(2, 3)) > 1e-7
                ok = (nz.sum(0) == 1).all() and (nz.sum(1) == 1).all()
                if ok and f.startswith("induced_norm_"):
                    for i, j in zip(*np.nonzero(nz)):
                        ok = ok and np.allclose(b[i, j] @ b[i, j].T, np.eye(k), atol=1e-7)
                mon.check(ok, f[:12], "%s: the sub-fields are not permuted as wholes" % f, **ctx)
            elif f == "induced_gate":
                mon.check(np.allclose(m, np.round(m), atol=1e-7) and np.allclose(m.sum(0), 1) and np.allclose(np.abs(m).sum(0), 1),
                          "induced_gate", "not a permutation", **ctx)
            elif f == "vectorfield":
                if r.name == "regular":
                    mon.check(spec[0] == "C", "vectorfield", "vector-field on a non cyclic group", **ctx)
                    if spec[1] > 2:
                        k = np.argmax(x, axis=0); k2 = np.argmax(m @ x, axis=0)
                        d = TAU / spec[1]
                        v = np.stack([np.cos(k * d), np.sin(k * d)]); v2 = np.stack([np.cos(k2 * d), np.sin(k2 * d)])
                        mon.close(v2, R(e * d) @ v, "vectorfield", atol=1e-7, **ctx)
            else:
                mon.evals += 1
            mon.seen(f, spec, l, e)
    if r.is_trivial():
        mon.check("gate" in r.supported_nonlinearities or l[0] != "irrep", "trivial-not-gate", spec=spec, rep=l)
    mon.sample({"group": g.name, "rep": str(l), "flags": str(fl)})
