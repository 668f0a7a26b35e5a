from ..ref import *
import torch
from e2cnn import nn as enn

RULE = "distinct (space, representation, element, grid) transforms judged against a reference pixel permutation / analytic rotation"
ASSUMPTIONS = ["elements that do not map the grid to itself are interpolated by the library: judged on smooth fields with tolerance 0.03",
               "exact elements judged at 1e-5 (float32 interface) and 1e-9 (numpy interface)"]

AX_GRID = [0., np.pi / 2, np.pi / 4, 3 * np.pi / 4, np.pi, -np.pi / 4, np.pi / 8]
AX_ANY = [0.3, 1.0, 2.2]


def units(tier, rng):
    us = []
    spaces = [("triv",)] + [("flip", a) for a in AX_GRID + AX_ANY]
    ns = (1, 2, 3, 4, 5, 6, 8, 12, 16, 20, 24) if tier == "quick" else range(1, 41)
    spaces += [("rot", n) for n in ns if n > 1] + [("rot", -1, 3)]
    for n in ((2, 3, 4, 6, 8, 12) if tier == "quick" else range(2, 25)):
        for a in ([np.pi / 2, 0., np.pi / 4] if n != 4 else AX_GRID) + [float(rng.uniform(0, np.pi))]:
            spaces.append(("fliprot", n, a))
    for a in AX_GRID[:4] + AX_ANY[:2]: spaces.append(("fliprot", -1, 3, a))
    return [{"sp": s} for s in spaces]


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); gs = space_gspec(sp); rng = mon.rng
    g = s.fibergroup
    sym = symmetric_elements(sp)
    labels = [("trivial",)] + rep_specs(gs, rng, 5, maxsize=12, maxf=3)
    for n, l in enumerate(labels):
        rho = build_rep(g, gs, l)
        for size in (((33, 33), (34, 34), (66, 35)) if n == 0 else ()) + ((1, 1), (2, 2), (5, 5), (6, 6), (9, 9), (4, 7), (7, 3)):
            exact(mon, sp, s, gs, l, rho, sym, size)
    smooth(mon, sp, s, gs)
    multi(mon, sp, s, gs, sym)
    restricted(mon, sp, s, gs)


def exact(mon, sp, s, gs, l, rho, sym, size):
    rng = mon.rng
    g = s.fibergroup
    x = rng.normal(size=(int(rng.choice([1, 3, 17, 33, 65])) if rng.integers(4) == 0 and size[0] < 8 else 2, rho.size) + size)
    t32 = torch.tensor(x, dtype=torch.float32)
    ft = enn.FieldType(s, [rho])
    gt = enn.GeometricTensor(t32.clone(), ft)
    for e in sym:
        M = space_planar(sp, e)
        rot90 = abs(round(M[0, 0])) == 0
        if rot90 and size[0] != size[1]:
            continue
        want = field_action(x, ref_matrix(rho, gs, e), M)
        ctx = dict(space=sp, rep=l, e=e, size=size)
        x0 = x.copy()
        y = s.featurefield_action(x, rho, e)
        mon.check(np.array_equal(x, x0), "input-modified", **ctx)
        mon.close(y, want, "exact", "featurefield_action", atol=1e-9, **ctx)
        y2 = ft.transform(t32, e)
        mon.close(y2, want, "exact-fieldtype", "FieldType.transform", atol=2e-5, **ctx)
        y3 = gt.transform(e)
        mon.check(y3.type == ft, "type-kept", **ctx)
        mon.close(y3.tensor, want, "exact-tensor", "GeometricTensor.transform", atol=2e-5, **ctx)
        y4 = gt.transform_fibers(e)
        mon.close(y4.tensor, np.einsum("oi,bi...->bo...", ref_matrix(rho, gs, e), x), "fibers", "transform_fibers", atol=2e-5, **ctx)
        mon.check(y4.type == ft, "type-kept", **ctx)
        mon.check(torch.equal(gt.tensor, torch.tensor(x0, dtype=torch.float32)) and torch.equal(t32, gt.tensor), "input-modified", **ctx)
        # results must not share memory with the input
        z = np.asarray(y)
        mon.check(not np.shares_memory(z, x), "aliases-input", **ctx)
        mon.seen("exact", sp, l, e, size)
        # composition
        e2 = sym[int(rng.integers(len(sym)))]
        M2 = space_planar(sp, e2)
        if size[0] == size[1]:
            lhs = s.featurefield_action(s.featurefield_action(x, rho, e2), rho, e)
            rhs = s.featurefield_action(x, rho, g.combine(e, e2))
            mon.close(lhs, rhs, "composition", "%s after %s" % (e, e2), atol=1e-9, **ctx)
            back = s.featurefield_action(y, rho, g.inverse(e))
            mon.close(back, x, "inverse", atol=1e-9, **ctx)
    mon.close(s.featurefield_action(x, rho, g.identity), x, "identity", atol=1e-12, space=sp, rep=l)
    # linear, batch-wise
    if len(sym) > 1 and size[0] == size[1]:
        e = sym[-1]
        y = s.featurefield_action(x, rho, e)
        y1 = s.featurefield_action(x[1:], rho, e)
        mon.close(y[1:], y1, "batch", atol=1e-12, space=sp, rep=l, e=e)


def field(P, kind):
    """smooth test image evaluated at points (2,...)"""
    return np.exp(-((P[0] - 3.0) ** 2 + (P[1] - 1.5) ** 2) / 18.) + 0.7 * np.exp(-((P[0] + 4.) ** 2 + (P[1] - 2.) ** 2) / 12.) + kind * 0.5 * np.exp(-((P[0]) ** 2 + (P[1] + 5) ** 2) / 14.)


def coords(n, m=None):
    m = m or n
    r, c = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    return np.stack([c - (m - 1) / 2, -(r - (n - 1) / 2)])


def smooth(mon, sp, s, gs):
    rng = mon.rng
    for h, w in ((33, 33), [(32, 32), (34, 31), (31, 40), (36, 36)][int(rng.integers(4))]): smooth_on(mon, sp, s, gs, rng, h, w)


def smooth_on(mon, sp, s, gs, rng, h, w):
    P = coords(h, w)
    rad = np.sqrt((P ** 2).sum(0)) < 13
    labels = [("trivial",)] + rep_specs(gs, rng, 2, maxsize=6, maxf=2)
    els = sample_elements(gs, rng, 12 if h == w == 33 else 6)
    for l in labels:
        rho = build_rep(s.fibergroup, gs, l)
        x = np.stack([field(P, k) for k in range(rho.size)])[None]
        for e in els:
            M = space_planar(sp, e)
            if h != w and np.abs(np.diag(M)).max() < 1e-6: continue        # quarter turns exchange height and width
            Q = np.einsum("ij,jhw->ihw", np.linalg.inv(M), P)
            want = np.einsum("oi,ihw->ohw", ref_matrix(rho, gs, e), np.stack([field(Q, k) for k in range(rho.size)]))
            got = s.featurefield_action(x, rho, e)[0]
            if mon.check(got.shape == want.shape, "smooth-shape", space=sp, e=e):
                mon.close(got[:, rad], want[:, rad], "smooth", "interpolated action", atol=0.03, space=sp, rep=l, e=e, hw=(h, w))
            mon.seen("smooth", sp, l, e, h, w)
    mon.sample({"space": str(sp), "rep": str(l), "element": str(e), "planar": M.tolist()})


def multi(mon, sp, s, gs, sym):
    """several fields of different representations in one type"""
    rng = mon.rng
    g = s.fibergroup
    for _ in range(4):
        ls = rep_specs(gs, rng, int(rng.integers(2, 5)), maxsize=9)
        rs = [build_rep(g, gs, l) for l in ls]
        ft = enn.FieldType(s, rs)
        x = rng.normal(size=(2, ft.size, 5, 5)).astype(np.float32)
        for e in sym:
            rho = block_diag([ref_matrix(r, gs, e) for r in rs])
            want = field_action(x, rho, space_planar(sp, e))
            mon.close(ft.transform(torch.tensor(x), e), want, "multi", atol=2e-5, space=sp, reps=ls, e=e)
            gt = enn.GeometricTensor(torch.tensor(x), ft)
            mon.close(gt.transform(e).tensor, want, "multi", atol=2e-5, space=sp, reps=ls, e=e)
            mon.close(gt.transform_fibers(e).tensor, np.einsum("oi,bi...->bo...", rho, x), "multi-fibers", atol=2e-5, space=sp, reps=ls, e=e)
            mon.seen("multi", sp, ls, e)
        # gradients/devices: a tensor requiring grad can be transformed and is left untouched
        t = torch.tensor(x, requires_grad=True)
        e = sym[int(rng.integers(len(sym)))]
        mon.close(ft.transform(t, e), field_action(x, block_diag([ref_matrix(r, gs, e) for r in rs]), space_planar(sp, e)), "multi", atol=2e-5, space=sp, reps=ls, e=e)
        mon.check(np.array_equal(t.detach().numpy(), x), "input-modified", space=sp)


def sub_ids(sp, gs, rng):
    ids = subgroup_ids(gs, rng, extra=1)
    if gs[0] == "O2":
        ax = space_axis(sp)
        # axes that give grid reflections
        ids = [i for i in ids if i[0] is None or True]
        for k in range(4):
            a = float((k * np.pi / 2 - 2 * ax) % TAU)
            ids += [(a, 1), (a, -1)]
            if a < TAU / 4: ids.append((a, 4))
    return ids


def restricted(mon, sp, s, gs):
    rng = mon.rng
    ids = sub_ids(sp, gs, rng)
    lim = 14 if mon.tier == "quick" else 60
    if len(ids) > lim: ids = [ids[int(i)] for i in rng.choice(len(ids), lim, replace=False)]
    g = s.fibergroup
    P = coords(33); rad = np.sqrt((P ** 2).sum(0)) < 13
    for id in ids:
        s2, par, ch = s.restrict(id)
        ss = subgroup_spec(gs, id)
        sg = g.subgroup(id)[0]
        mon.check(s2.fibergroup == sg, "restrict-group", space=sp, id=id)
        l = rep_specs(gs, rng, 1, maxsize=8)[0]
        rho = build_rep(g, gs, l)
        rr = rho.restrict(id)
        x = rng.normal(size=(1, rho.size, 5, 5))
        xs = np.stack([field(P, k) for k in range(rho.size)])[None]
        for h in sample_elements(ss, rng, 8):
            p = par(h)
            if not mon.check(g.is_element(p), "restrict-map", "%r" % (p,), space=sp, id=id): continue
            mon.close(planar(gs, p), mat_of(embed(gs, id, h)), "restrict-map", atol=1e-7, space=sp, id=id)
            c = ch(p)
            mon.check(c is not None and sg.equal(c, h), "restrict-child", "%r" % (c,), space=sp, id=id, h=h)
            M = space_planar(sp, p)
            ctx = dict(space=sp, id=id, h=h, rep=l)
            if is_grid_symmetry(M):
                want = field_action(x, ref_matrix(rho, gs, p), M)
                mon.close(s2.featurefield_action(x, rr, h), want, "restrict-exact", "restricted action", atol=1e-7, **ctx)
            Q = np.einsum("ij,jhw->ihw", np.linalg.inv(M), P)
            want = np.einsum("oi,ihw->ohw", ref_matrix(rho, gs, p), np.stack([field(Q, k) for k in range(rho.size)]))
            mon.close(s2.featurefield_action(xs, rr, h)[0][:, rad], want[:, rad], "restrict-smooth", "restricted action", atol=0.03, **ctx)
            mon.seen("restricted", sp, id, h, l)
