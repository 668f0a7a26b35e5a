from ..ref import *

RULE = "distinct (group, subgroup id, element) embeddings / partial-inverse queries judged"
ASSUMPTIONS = ["identifiers: every admissible id of C1..C24, D1..D16 (quick), SO2 orders up to 24, O2 orders up to 12 with seeded axes"]


def units(tier, rng):
    us = []
    nc = list(range(1, 25)) if tier == "quick" else list(range(1, 49))
    nd = list(range(1, 13)) + [15, 16] if tier == "quick" else list(range(1, 31))
    for n in nc: us.append({"g": ("C", n)})
    for n in nd: us.append({"g": ("D", n)})
    for r in range(3 if tier == "quick" else 12):
        us.append({"g": ("SO2", 3 + r), "r": r})
        us.append({"g": ("O2", 2 + r), "r": r})
    return us


def bad_ids(spec):
    N = spec[1]
    if spec[0] == "C":
        return [d for d in range(2, N + 4) if N % d] + [2 * N, 0, -1, -N, None, "1", (None, 1), 1.5]
    if spec[0] == "D":
        out = [(None, d) for d in range(2, N + 4) if N % d] + [(0, d) for d in range(2, N + 3) if N % d]
        out += [(N // n, n) for n in divisors(N)] + [(N, 1), (-1, 1), (None, 2 * N), (0, 2 * N)]
        return out + [None, 1, (0,), (0, 1, 1), (None, 0), (0, 0), (None, -1), (0, -1), ("a", 1), (0.5, 1), (0, 1.0), (None, None)]
    if spec[0] == "SO2":
        return [0, -1, -3, None, "2", (None, 2), 2.0]
    out = [(TAU / n, n) for n in range(1, 7)] + [(TAU / n + 0.1, n) for n in range(1, 7)] + [(-0.1, n) for n in (1, 2, 3)]
    return out + [None, 1, (0.,), (None, 0), (None, -2), (0., -2), (0., 0), ("a", 1), (0., 1.0), (0., 1, 1)]


def run(mon, u):
    spec = tup(u["g"])
    g = grp(spec)
    rng = mon.rng
    ids = subgroup_ids(spec, rng)
    if spec[0] == "SO2":
        ids = list(range(1, 25))
    if spec[0] == "O2":
        ids += [(None, n) for n in (7, 9, 10, 12)] + [(float(rng.uniform(0, TAU / n)), n) for n in (2, 3, 4, 5, 6, 9, 10, 12)]
        # axes which are almost, but not quite, the same
        near = [i for i in ids if i[0] is not None and i[1] != -1]
        ids += [(float(near[int(k)][0] + d), near[int(k)][1]) for k in rng.choice(len(near), 6) for d in (4e-2, 3e-3, 4e-4, 2e-5) if near[int(k)][0] + d < TAU / near[int(k)][1]]
    order = list(range(len(ids)))
    rng.shuffle(order)
    for q in order:
        id = ids[q]
        one(mon, spec, g, id)
    # ask again, in another order (cached answers must be the same maps)
    for q in [order[i] for i in rng.integers(0, len(order), min(len(order), 12))]:
        one(mon, spec, g, ids[q])
    for b in bad_ids(spec):
        mon.raises(lambda: g.subgroup(b), "bad-id-accepted", "inadmissible id %r of %s" % (b, spec))
        mon.seen("bad id", spec, repr(b))


def one(mon, spec, g, id):
    rng = mon.rng
    sg, parent, child = g.subgroup(id)
    ss = subgroup_spec(spec, id)
    want = {"C": G.CyclicGroup, "D": G.DihedralGroup, "SO2": G.SO2, "O2": G.O2}[ss[0]]
    if not mon.check(type(sg) is want, "subgroup-type", "%s: %s" % (id, sg.name), spec=spec): return
    if ss[0] in ("C", "D"):
        if not mon.check(sg.order() == (ss[1] if ss[0] == "C" else 2 * ss[1]), "subgroup-order", "%s: %s" % (id, sg.name), spec=spec): return
        hs = all_elements(ss)
    else:
        hs = sample_elements(ss, rng, 30)
    imgs = []
    for h in hs:
        p = parent(h)
        if not mon.check(g.is_element(p), "parent-closed", "parent(%s)=%r is no element" % (h, p), spec=spec, id=id): continue
        mon.close(planar(spec, p), mat_of(embed(spec, id, h)), "embedding", "parent(%s)=%s" % (h, p), atol=1e-7, spec=spec, id=id)
        c = child(p)
        if mon.check(c is not None and sg.is_element(c), "child-valid", "child(parent(%s))=%r is no valid element" % (h, c), spec=spec, id=id):
            mon.check(sg.equal(c, h), "child-inverse", "child(parent(%s))=%s" % (h, c), spec=spec, id=id)
        imgs.append((h, p))
        mon.seen("embed", spec, id, h)
    for _ in range(min(60, len(hs) ** 2)):
        a, b = [hs[int(i)] for i in rng.integers(0, len(hs), 2)]
        mon.check(g.equal(parent(sg.combine(a, b)), g.combine(parent(a), parent(b))), "homomorphism", "%s %s" % (a, b), spec=spec, id=id)
        if not sg.equal(a, b):
            mon.check(not g.equal(parent(a), parent(b)), "injective", "%s %s" % (a, b), spec=spec, id=id)
    # partial inverse over the parent
    if spec[0] in ("C", "D"):
        table = {elt(spec, embed(spec, id, h)): h for h in hs}
        for e in all_elements(spec):
            c = child(e)
            if e in table:
                if mon.check(c is not None and sg.is_element(c), "child-valid", "child(%s)=%r" % (e, c), spec=spec, id=id):
                    mon.check(sg.equal(c, table[e]), "child-value", "child(%s)=%r, expected %r" % (e, c, table[e]), spec=spec, id=id)
            else:
                mon.check(c is None, "child-none", "child(%s)=%r for an element outside the subgroup" % (e, c), spec=spec, id=id)
            mon.seen("child", spec, id, e)
    else:
        # elements of the image written with another number of turns / products computed by the group
        for h, p in imgs:
            for k in (-2, -1, 1, 2):
                p2 = p + k * TAU if spec[0] == "SO2" else (p[0], p[1] + k * TAU)
                c = child(p2)
                if mon.check(c is not None and sg.is_element(c), "child-valid", "child(%s)=%r" % (p2, c), spec=spec, id=id):
                    mon.check(sg.equal(c, h), "child-value", "child(%s)=%r, expected %r" % (p2, c, h), spec=spec, id=id)
        for _ in range(10):
            (h1, p1), (h2, p2) = [imgs[int(i)] for i in rng.integers(0, len(imgs), 2)]
            c = child(g.combine(p1, p2))
            if mon.check(c is not None and sg.is_element(c), "child-valid", "child(combine(%s,%s))=%r" % (p1, p2, c), spec=spec, id=id):
                mon.check(sg.equal(c, sg.combine(h1, h2)), "child-value", spec=spec, id=id)
            c = child(g.inverse(p1))
            if mon.check(c is not None and sg.is_element(c), "child-valid", "child(inverse(%s))=%r" % (p1, c), spec=spec, id=id):
                mon.check(sg.equal(c, sg.inverse(h1)), "child-value", spec=spec, id=id)
        for _ in range(40):
            e = rand_element(spec, rng)
            if rng.random() < .5 and imgs:   # perturb an image element
                p = imgs[int(rng.integers(len(imgs)))][1]
                d = float(rng.choice([1e-3, 0.1, -0.05, np.pi / 7]))
                e = p + d if spec[0] == "SO2" else (p[0] if rng.random() < .7 else 1 - p[0], p[1] + d)
            inside = None
            if ss[0] in ("C", "D"):
                dist = min(np.abs(mat_of(embed(spec, id, h)) - planar(spec, e)).max() for h in hs)
                inside = True if dist < 1e-12 else (False if dist > 1e-6 else None)
            elif ss[0] == "SO2":
                inside = e[0] == 0
            else:
                inside = True
            c = child(e)
            if inside is False:
                mon.check(c is None, "child-none", "child(%s)=%r for an element outside the subgroup" % (e, c), spec=spec, id=id)
            elif inside:
                if mon.check(c is not None and sg.is_element(c), "child-valid", "child(%s)=%r" % (e, c), spec=spec, id=id):
                    mon.close(mat_of(embed(spec, id, c)), planar(spec, e), "child-value", "child(%s)=%r" % (e, c), atol=1e-7, spec=spec, id=id)
            mon.seen("child", spec, id, repr(e))
    mon.sample({"group": g.name, "id": str(id), "subgroup": sg.name, "image": str([p for _, p in imgs][:4])})
