from ..zoo import *
from .c15 import inputs, sub, FLOOR

RULE = "distinct (module, space, field types, memory layout, element) executions of an invariant map judged against the per-field maximum/norm and for invariance"
ASSUMPTIONS = ["representations advertise the required support (judged by C06)"]

SPS = [("triv",), ("flip", np.pi / 2), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 6), ("rot", 8), ("rot", -1, 3),
       ("fliprot", 2, 0.), ("fliprot", 3, np.pi / 2), ("fliprot", 4, 0.4), ("fliprot", 6, 0.), ("fliprot", -1, 3, np.pi / 2)] + MORE_SPACES


def units(tier, rng):
    return [{"sp": sp, "k": k} for sp in SPS for k in ("group", "norm", "induced")]


def run(mon, u):
    sp = tup(u["sp"]); s = space(sp); rng = mon.rng; k = u["k"]
    need = {"group": has("pointwise"), "norm": has("norm"), "induced": lambda r: len(sub(r, "induced_norm")) == 1}[k]
    kinds = ["quotient", "regular", "induced", "induced", "irrep"] if k == "induced" else None
    cls = {"group": enn.GroupPooling, "norm": enn.NormPool, "induced": enn.InducedNormPool}[k]
    for _ in range(70 if mon.tier == "quick" else 200):
        pl = pool_for(rng, sp, s, n=14, need=need, maxsize=12, kinds=kinds)
        if not pl: return
        sc = draw(rng, pl, int(rng.integers(1, 8)), maxsize=24, sp=sp, s=s)
        t = Ty(sp, s, sc)
        m = live(rng, cls(t.ft))
        ctx = {"module": k, "space": sp, "types": sc}
        FLOOR[:] = [1., True]
        q = bulk(rng) or (int(rng.integers(1, 4)), *[int(v) for v in (rng.integers(1, 6, size=2) if rng.integers(10) else rng.integers(9, 20, size=2))])
        x, lay = inputs(rng, (q[0], t.size) + tuple(q[1:])); xn = npy(x)
        if rng.integers(3) == 0: x = -x.abs(); xn = npy(x)
        x = ask_grad(rng, x); y = m(GeometricTensor(x, t.ft)); yn = npy(y.tensor)
        to = Ty(sp, s, [("trivial",)] * len(sc))
        mon.check(y.type == m.out_type == to.ft, "out-type", **ctx)
        f = lambda v, i: (v.max(1) if k == "group" else np.sqrt((v ** 2).sum(1)) if k == "norm" else
                          np.sqrt((v.reshape(v.shape[0], -1, sub(t.reps[i], "induced_norm")[0], *v.shape[2:]) ** 2).sum(2)).max(1))
        want = np.stack([f(xn[:, t.sl(i)], i) for i in range(len(sc))], 1)
        mon.close(yn, want, "function", "field-wise maximum/norm", atol=3e-5 * (FLOOR[0] + np.abs(xn).max()), layout=lay, **ctx)
        mon.close(npy(x), xn, "input-modified", atol=0., **ctx)
        mon.seen("exec", k, sp, repr(sc), lay)
        for e in sample_elements(space_gspec(sp), rng, 5):
            z = npy(m(GeometricTensor(t32(t.channel(xn, e)), t.ft)).tensor)
            mon.close(z, want, "invariance", atol=5e-5 * (FLOOR[0] + np.abs(xn).max()), e=e, **ctx)
            mon.seen("element", k, sp, str(e), repr(sc))
        mon.sample(dict(module=k, space=str(sp), types=str(sc)))
