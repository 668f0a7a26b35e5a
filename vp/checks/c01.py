from .. import ref
from ..ref import *

RULE = "distinct (group, element pair) products / equality pairs / membership queries judged against planar matrices"
ASSUMPTIONS = ["finite groups sampled up to C60 and D36; continuous groups by seeded random angles plus special angles",
               "continuous elements compared with tolerance 1e-7"]


def units(tier, rng):
    us = []
    nc = list(range(1, 25)) + [30, 32, 36] if tier == "quick" else list(range(1, 61))
    nd = list(range(1, 17)) + [18, 20] if tier == "quick" else list(range(1, 37))
    for n in nc: us.append({"g": ("C", n)})
    for n in nd: us.append({"g": ("D", n)})
    for r in range(4 if tier == "quick" else 16):
        for k in ("SO2", "O2"):
            us.append({"g": (k, int(rng.integers(0, 8))), "r": r})
    us.append({"g": None})
    # merge small ones to limit forks
    return us


def bad_elements(spec):
    N = spec[1]
    if spec[0] == "C":
        return [-1, N, N + 1, 2 * N + 3, 0.5, "0", None, (0,), (0, 0), [0], 1.0 + 1e-3]
    if spec[0] == "D":
        return [(0, -1), (0, N), (1, N), (2, 0), (-1, 0), (0,), (0, 0, 0), [0, 0], 0, 0.0, None, "e", (0, 0.5), (0.5, 0), (None, 0), (1, -1)]
    if spec[0] == "SO2":
        return ["0", None, (0., ), (0, 0.), [0.], {}]
    return [(2, 0.), (-1, 0.), (0,), (0, 0., 0.), [0, 0.], None, "e", 0.3, (0., 0.), (0, None), (None, 0.), (0.5, 1.)]


def run(mon, u):
    if u["g"] is None:
        return cross(mon)
    spec = tup(u["g"])
    for fresh in (False, True):
        g = grp(spec, fresh)
        if spec[0] in ("C", "D"):
            finite(mon, spec, g)
        else:
            continuous(mon, spec, g)
        if fresh:
            g0 = grp(spec)
            if spec[0] in ("C", "D"):
                mon.check(g == g0 and g0 == g, "group-eq", "independently built equal groups differ", spec=spec)
        for e in bad_elements(spec):
            try:
                acc = bool(g.is_element(e))
            except Exception:
                acc = False
            mon.check(not acc, "membership", "non-element accepted", spec=spec, e=e)
            mon.seen("nonmember", spec, repr(e))


def finite(mon, spec, g):
    els = all_elements(spec)
    lib = list(g.elements)
    mon.check(len(lib) == len(els) and set(lib) == set(els), "elements", "element list", spec=spec)
    mon.check(lib == els, "elements-order", "documented enumeration order (rotations first, then reflections)", spec=spec)
    mon.check(g.order() == len(els), "order", "order %s" % g.order(), spec=spec)
    mon.check(len(g.elements_names) == len(els) and len(set(g.elements_names)) == len(els), "names", "element names", spec=spec)
    mon.check(not g.continuous, "continuous-flag")
    te = list(g.testing_elements())
    mon.check(all(g.is_element(e) for e in te) and set(te) <= set(els), "testing-elements", spec=spec)
    mon.check(g.identity == els[0], "identity", spec=spec)
    if spec[0] == "D":
        mon.check(g.rotation_order == spec[1], "rotation-order", spec=spec)
        mon.close(planar(spec, g.reflection), F, "reflection", atol=1e-12)
    M = np.array([planar(spec, e) for e in els])
    inv_of = {}
    commutes = True
    for i, a in enumerate(els):
        mon.check(g.is_element(a), "membership", "element rejected", spec=spec, e=a)
        ia = g.inverse(a)
        if mon.check(g.is_element(ia), "inverse-closed", "inverse(%s)=%s" % (a, ia), spec=spec):
            mon.close(planar(spec, ia), M[i].T, "inverse", "inverse of %s" % (a,), atol=1e-9, spec=spec)
            mon.check(g.combine(a, ia) == g.identity and g.combine(ia, a) == g.identity, "inverse-law", spec=spec, e=a)
        for j, b in enumerate(els):
            c = g.combine(a, b)
            if not mon.check(g.is_element(c), "closed", "combine(%s,%s)=%s" % (a, b, c), spec=spec):
                continue
            err = np.abs(planar(spec, c) - M[i] @ M[j]).max()
            mon.check(err < 1e-9, "planar-product", "combine(%s,%s)=%s" % (a, b, c), spec=spec)
            mon.check(bool(g.equal(a, b)) == (i == j), "equal", "equal(%s,%s)" % (a, b), spec=spec)
            if i != j and np.abs(M[i] @ M[j] - M[j] @ M[i]).max() > 1e-9: commutes = False
            mon.seen("product", spec, a, b)
    mon.check(commutes or not g.abelian, "abelian", "flagged abelian but does not commute", spec=spec)
    for _ in range(300):
        a, b, c = [els[int(k)] for k in mon.rng.integers(0, len(els), 3)]
        mon.check(g.combine(g.combine(a, b), c) == g.combine(a, g.combine(b, c)), "associative", spec=spec, abc=(a, b, c))
    mon.sample({"group": g.name, "elements": len(els), "last product": str((els[-1], els[-1], g.combine(els[-1], els[-1])))})


def continuous(mon, spec, g):
    rng = mon.rng
    mon.check(g.order() == -1 and g.continuous, "order", "continuous group order", spec=spec)
    te = list(g.testing_elements())
    mon.check(len(te) > 4 and all(g.is_element(e) for e in te), "testing-elements", spec=spec)
    mon.check(g.is_element(g.identity), "identity")
    mon.close(planar(spec, g.identity), np.eye(2), "identity", atol=1e-12)
    if spec[0] == "O2":
        mon.close(planar(spec, g.reflection), F, "reflection", atol=1e-12)
    pool = sample_elements(spec, rng, 40)
    for n in range(2500):
        a, b, c = [pool[int(i)] if rng.random() < .4 else rand_element(spec, rng) for i in rng.integers(0, len(pool), 3)]
        A, B, C = planar(spec, a), planar(spec, b), planar(spec, c)
        mon.check(g.is_element(a), "membership", "element rejected", spec=spec, e=a)
        ab = g.combine(a, b)
        if not mon.check(g.is_element(ab), "closed", "combine(%s,%s)=%r" % (a, b, ab), spec=spec): continue
        mon.close(planar(spec, ab), A @ B, "planar-product", "combine(%s,%s)=%s" % (a, b, ab), atol=1e-7, spec=spec)
        ia = g.inverse(a)
        if mon.check(g.is_element(ia), "inverse-closed", "inverse(%s)=%r" % (a, ia), spec=spec):
            mon.close(planar(spec, ia), A.T, "inverse", "inverse of %s" % (a,), atol=1e-7, spec=spec)
            mon.check(g.equal(g.combine(a, ia), g.identity) and g.equal(g.identity, g.combine(ia, a)), "inverse-law", spec=spec, e=a)
        mon.check(g.equal(g.combine(ab, c), g.combine(a, g.combine(b, c))), "associative", spec=spec, abc=(a, b, c))
        mon.check(g.equal(g.combine(a, g.identity), a) and g.equal(a, g.combine(g.identity, a)), "identity-law", spec=spec, e=a)
        d = np.abs(A - B).max()
        if d < 1e-12 or d > 1e-6:
            mon.check(bool(g.equal(a, b)) == (d < 1e-12), "equal", "equal(%s,%s), planar distance %.2g" % (a, b, d), spec=spec)
        # same element written with another number of turns
        k = int(rng.integers(-3, 4))
        a2 = a + k * TAU if spec[0] == "SO2" else (a[0], a[1] + k * TAU)
        mon.check(g.equal(a, a2) and g.equal(a2, a), "equal-mod-turn", "equal(%s,%s)" % (a, a2), spec=spec)
        dd = float(rng.choice([1e-4, 1e-2, 1., np.pi, np.pi / 2, TAU / 3]))
        a3 = a + dd + k * TAU if spec[0] == "SO2" else (a[0], a[1] + dd + k * TAU)
        mon.check(not g.equal(a, a3) and not g.equal(a3, a), "equal-distinct", "equal(%s,%s)" % (a, a3), spec=spec)
        if spec[0] == "O2":
            a4 = (1 - a[0], a[1])
            mon.check(not g.equal(a, a4), "equal-flip", spec=spec, e=a)
        mon.seen("continuous-triple", spec, round(parts(spec, a)[1], 6), round(parts(spec, b)[1], 6), parts(spec, a)[0], parts(spec, b)[0])
    mon.sample({"group": g.name, "a": str(a), "b": str(b), "ab": str(ab)})


def cross(mon):
    specs = [("C", n) for n in range(1, 13)] + [("D", n) for n in range(1, 9)] + [("SO2", 3), ("O2", 3)]
    gs = [grp(s) for s in specs]
    for i, a in enumerate(gs):
        for j, b in enumerate(gs):
            mon.check((a == b) == (i == j), "group-eq", "%s == %s" % (specs[i], specs[j]))
            mon.seen("group pair", i, j)
    mon.check(G.trivial_group().order() == 1, "trivial-group")
    for i, s in enumerate(specs):
        mon.check(grp(s) == gs[i], "group-eq", "factory not stable")
