from ..mods import *
from ..kern import kernel_basis, space_basis, diffop_basis, space_diffop_basis, K, D
from .c25 import restrict_id

RULE = "distinct ordered pairs of independently built objects (groups, spaces, representations, field types, kernel bases, operator bases and their factors) whose comparison and hashes were judged against their observed behaviour"
ASSUMPTIONS = ["behaviour = matrices, planar action, sampled kernels and coefficients, attributes and advertised nonlinearities, compared at 1e-6",
               "objects which behave alike but were built from different descriptions may compare either way; only objects built from the same description must be equal",
               "the exception: an axis of reflection is a line, so axes which differ by a multiple of pi describe the same space"]

SPS = [("triv",), ("flip", 0.), ("flip", .4), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("rot", -1, 4), ("fliprot", 2, np.pi / 2), ("fliprot", 3, .3), ("fliprot", 4, 0.), ("fliprot", 6, np.pi / 2),
       ("fliprot", -1, 2, np.pi / 2), ("fliprot", -1, 3, 0.)] + MORE_SPACES
KINDS = ["group", "space", "rep", "type", "kernel", "diffop"]


def units(tier, rng):
    return [{"sp": sp, "k": k, "r": r} for sp in SPS for k in KINDS for r in range(1 if tier == "quick" else 8)]


# ------------------------------------------------------------------ descriptions
def base(rng, sp, k):
    gs = space_gspec(sp)
    rs = lambda n, ms=6: rep_specs(gs, rng, n, maxsize=ms, maxf=3)
    if k in ("group", "space"): return {"sp": sp}
    if k == "rep": return {"sp": sp, "rs": rs(1)[0], "nl": None, "name": None}
    if k == "type": return {"sp": sp, "rs": rs(int(rng.integers(1, 4))), "names": "shared" if rng.integers(2) else None}
    n = int(rng.integers(1, 4))
    d = {"sp": sp, "rs": rs(2, 5), "maxf": int(rng.integers(0, 6)), "maxo": None}
    if k == "kernel": d.update(rings=[round(float(x), 2) for x in rng.uniform(0, 2, size=n)], sigma=[round(float(x), 2) for x in rng.uniform(.3, 1, size=n)], via=bool(rng.integers(2)))
    else: d.update(power=int(rng.integers(0, 3)), disc=disc(rng), via=bool(rng.integers(2)))
    return d


def disc(rng):
    return dict(method="fd") if rng.integers(2) else dict(method="fd", angle_offset=round(float(rng.uniform(.1, 3)), 2))


def neighbours(rng, d, k):
    """descriptions which differ from d in one ingredient"""
    sp = d["sp"]; out = []
    def v(**kw): out.append(dict(d, **kw))
    gs = space_gspec(sp); fresh = lambda n, ms=6: rep_specs(gs, rng, n, maxsize=ms, maxf=3)
    ax = lambda a: [a + .1, a + np.pi / 2, a + np.pi, -a, a + 2e-3, a + 2e-4]
    if k in ("group", "space") or rng.integers(3) == 0:
        same_group = []
        if sp[0] == "flip": same_group = [("flip", float(a)) for a in ax(sp[1])]
        if sp[0] == "fliprot": same_group = [sp[:-1] + (float(a),) for a in ax(sp[-1])]
        if k in ("group", "space"):
            same_group += [("rot", 2), ("flip", 0.), ("triv",), ("rot", 4), ("rot", 8), ("fliprot", 4, 0.), ("fliprot", 2, 0.), ("rot", -1, 2), ("rot", -1, 5), ("fliprot", -1, 2, 0.), ("fliprot", -1, 5, 0.), ("rot", 16), ("fliprot", 16, .1), ("rot", 12)]
        for q in same_group: v(sp=q)
    if k == "rep":
        for r in fresh(6): v(rs=r)
        r = _t(d["rs"])
        if r[0] in ("sumcob", "cob", "sumgl", "cobgl"): v(rs=(r[0], r[1], r[2] + 1))
        v(name="a"); v(name="b"); v(name="a", rs=("sum", (d["rs"], d["rs"]))); v(nl=("norm",), name="a"); v(nl=(), name="a"); v(nl=("norm", "gated"), name="a")
        for i in range(4): v(name="a", raw=i)
        v(name="a", cob=1); v(name="a", cob=2); v(name="a", cob=-1); v(name="a", cob=-2)
    if k == "type":
        R = d["rs"]
        v(rs=R[::-1]); v(rs=R + R[:1]); v(rs=R[1:] or R + R); v(rs=[("sum", R)] if len(R) > 1 else [("sum", R + R)])
        for r in fresh(4): v(rs=R[:-1] + [r])
        v(rs=[R[int(i)] for i in rng.permutation(len(R))]); v(names="shared" if d["names"] is None else None)
    if k in ("kernel", "diffop"):
        R = d["rs"]
        v(rs=R[::-1]); v(rs=[R[0], fresh(1, 5)[0]]); v(rs=[fresh(1, 5)[0], R[1]])
        for m in (0, 1, 2, 4, 8, 16): v(maxf=m)
        v(maxf=None, maxo=0); v(maxf=None, maxo=1); v(maxo=0)
        v(via=not d["via"])
    if k == "kernel":
        g, s = d["rings"], d["sigma"]
        v(rings=g + g[-1:], sigma=s + s[-1:]); v(rings=g[:1], sigma=s[:1]); v(rings=g[:1] * 3, sigma=s[:1] * 3); v(rings=g[::-1], sigma=s[::-1]); v(rings=[x + .05 for x in g]); v(sigma=[x + .05 for x in s]); v(rings=g + [g[-1] + .7], sigma=s + [.4])
        v(sigma=[s[0]] * len(s)); v(rings=s, sigma=[max(.1, x) for x in g]); v(sigma=[s[0] + .3] + s[1:])
    if k == "diffop":
        v(power=d["power"] + 1); v(power=(d["power"] + 2) % 3); v(disc=dict(method="fd")); v(disc=dict(method="fd", angle_offset=.5)); v(disc=dict(method="fd", angle_offset=1.2))
        v(disc=dict(method="gauss", smoothing=1.)); v(disc=dict(method="gauss", smoothing=2.))
    return out


def _t(x):
    return tuple(_t(y) for y in x) if isinstance(x, (list, tuple)) else x


def norm_sp(sp):
    """axes modulo pi"""
    if sp[0] == "flip": return ("flip", round(sp[1] % np.pi, 4) % round(np.pi, 4))
    if sp[0] == "fliprot": return sp[:-1] + (round(sp[-1] % np.pi, 4) % round(np.pi, 4),)
    return sp


# ------------------------------------------------------------------ objects and their behaviour
def make(d, k, fresh):
    sp = d["sp"]; gs = space_gspec(sp)
    if k == "group": return grp(gs, fresh=fresh or gs[0] in ("SO2", "O2"))   # the shared continuous groups grow
    s = space(sp); g = s.fibergroup
    if k == "space": return s
    if k == "rep":
        r = build_rep(g, gs, d["rs"])
        if d.get("raw") is not None:       # the same irreps, in some order
            irr = list(r.irreps) * 2 + ([r.group.trivial_representation.name] if d["raw"] == 3 else [])
            irr = sorted(irr) if d["raw"] == 0 else [irr[int(i)] for i in np.random.default_rng(d["raw"]).permutation(len(irr))]
            n = sum(g.irreps[i].size for i in irr)
            return Representation(g, d["name"], irr, np.eye(n), sorted(r.supported_nonlinearities - {"pointwise", "gate"} if True else ()))
        if d["name"] is not None:
            c = d.get("cob"); Q = np.eye(r.size)
            if c == 1: Q = Q[np.random.default_rng(5).permutation(r.size)]
            if c == 2: Q = rand_orth(r.size, np.random.default_rng(6))
            if c == -1: Q = -Q
            if c == -2: Q = Q[::-1]
            r = change_basis(r, Q, d["name"], supported_nonlinearities=sorted(r.supported_nonlinearities) if d["nl"] is None else list(d["nl"]))
        return r
    if k == "type":
        if d["names"]: return FieldType(s, [change_basis(build_rep(g, gs, r), np.eye(build_rep(g, gs, r).size), d["names"], supported_nonlinearities=["norm"]) for r in d["rs"]])
        memo = {}
        return FieldType(s, [memo.setdefault(_t(r), None) or memo.__setitem__(_t(r), build_rep(g, gs, r)) or memo[_t(r)] for r in d["rs"]] if not fresh else [build_rep(g, gs, r) for r in d["rs"]])
    a, b = [build_rep(g, gs, r) for r in d["rs"]]
    if k == "kernel": return (space_basis if d["via"] else kernel_basis)(sp, s, a, b, list(d["rings"]), list(d["sigma"]), d["maxf"], d["maxo"])
    dd = D.DiscretizationArgs(**d["disc"])
    return space_diffop_basis(sp, s, a, b, d["power"], d["maxf"], d["maxo"], dd) if d["via"] else diffop_basis(sp, a, b, d["power"], d["maxf"], d["maxo"], dd)


_pts = np.random.default_rng(77).normal(size=(2, 11)) * 1.4
_grid = np.stack(np.meshgrid(np.arange(-4., 5), np.arange(4., -5, -1))).reshape(2, -1)


def repbeh(r, gs):
    els = sample_elements(gs, np.random.default_rng(3), 8)
    return [("r", r.size, tuple(sorted(r.supported_nonlinearities)))] + [np.asarray(r(e)).ravel() for e in els]


def attrs(o):
    return [tuple(sorted((q, round(float(v), 6) if isinstance(v, (float, int, np.floating, np.integer)) else str(v)) for q, v in dict(a).items())) for a in o]


def behaviour(d, k, o):
    """what a user observes; arrays are compared numerically, the rest exactly"""
    sp = d["sp"]; gs = space_gspec(sp)
    plane = lambda: [("plane",) + tuple(gs[:1])] + [space_planar(sp, e).ravel() for e in sample_elements(gs, np.random.default_rng(3), 12)]
    if k == "group": return [("g", gs[0], gs[1] if gs[0] in ("C", "D") else None)]
    if k == "space": return plane() + [("k", sp[0] if gs != ("C", 2) else "", gs[0], gs[1] if gs[0] in ("C", "D") else None)]
    if k == "rep": return repbeh(o, gs) + [("gr", gs[0], gs[1] if gs[0] in ("C", "D") else None)]
    if k == "type":
        out = plane() + [("t", tuple(r.size for r in o.representations))]
        for r in o.representations: out += repbeh(r, gs)
        return out
    if k == "kernel": return [("kb", tuple(o.shape), o.dim)] + attrs(o) + [np.asarray(o.sample(_pts)).ravel()]
    out = [("db", tuple(o.shape), o.dim, repr(sorted(d["disc"].items())))] + attrs(o) + [np.asarray(c).ravel() for c in o.coefficients]
    try: out.append(np.asarray(o.sample(_grid)).ravel())
    except (AssertionError, NotImplementedError, ImportError, ValueError): pass
    except RuntimeError as e:
        if "RBF" not in str(e): raise
    return out


def alike(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray): return False
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.allclose(x, y, atol=1e-6): return False
        elif x != y: return False
    return True


def cmp(mon, l, r, what, **ctx):
    """the comparison itself: total, boolean, symmetric, coherent with != and with hashes"""
    try: e, f, n = l == r, r == l, l != r
    except Exception as x:
        mon.check(False, "comparison-raises", "%s: %s %s" % (what, type(x).__name__, str(x)[:200]), **ctx); return None
    mon.check(bool(e) == bool(f), "symmetric", what, **ctx)
    mon.check(bool(n) != bool(e), "not-equal", what, **ctx)
    return bool(e)


def hashed(mon, o, **ctx):
    if type(o).__hash__ is None: return None      # groups
    try: return hash(o)
    except Exception as x: mon.check(False, "hash-raises", "%s %s" % (type(x).__name__, str(x)[:200]), **ctx)


def run(mon, u):
    sp = tup(u["sp"]); k = u["k"]; rng = mon.rng
    n = {"group": 1, "space": 1, "rep": 8, "type": 6, "kernel": 7, "diffop": 5}[k] * (1 if mon.tier == "quick" else 3)
    for _ in range(n):
        d = base(rng, sp, k); ds = [d] + neighbours(rng, d, k); objs = []
        if len(ds) > 18: ds = ds[:1] + [ds[int(i)] for i in 1 + rng.choice(len(ds) - 1, 17, replace=False)]
        for q in ds:
            try: o = make(q, k, False)
            except AssertionError:
                continue
            if o is None: continue
            objs.append((q, o, behaviour(q, k, o)))
        for i, (q, o, beh) in enumerate(objs):
            # the same description again
            o2 = make(q, k, True); ctx = dict(kind=k, a=q)
            if o2 is None: mon.check(False, "rebuilt", "second construction is empty", **ctx); continue
            e = cmp(mon, o, o2, "rebuilt object", **ctx)
            mon.check(e is True, "rebuilt", "an object built again from the same description is not equal to it", **ctx)
            mon.check(hashed(mon, o, **ctx) == hashed(mon, o2, **ctx) and hashed(mon, o, **ctx) == hashed(mon, o, **ctx), "hash", "equal objects, different hashes", **ctx)
            mon.check(cmp(mon, o, o, "itself", **ctx) is True, "reflexive", **ctx)
            for other in (None, 3, "x", (1, 2), object(), objs[0][1].__class__): mon.check(cmp(mon, o, other, "foreign object", **ctx) is False, "foreign", "equal to %r" % (other,), **ctx)
            mon.seen("rebuilt", k, repr(q))
            if hasattr(o, "radial"): parts_(mon, o, o2, k, q, objs)
        for i in range(len(objs)):
            for j in range(i + 1, len(objs)):
                (q, a, x), (r, b, y) = objs[i], objs[j]
                ctx = dict(kind=k, a=q, b=r)
                e = cmp(mon, a, b, "pair", **ctx)
                if e is None: continue
                if e:
                    mon.check(alike(x, y), "equal-but-different", "two objects which behave differently are equal", **ctx)
                    mon.check(hashed(mon, a, **ctx) == hashed(mon, b, **ctx), "hash", "equal objects, different hashes", **ctx)
                elif k == "space": mon.check(norm_sp(q["sp"]) != norm_sp(r["sp"]), "same-axis", "equal spaces compare different", **ctx)
                else: mon.evals += 1
                mon.seen("pair", k, repr(q), repr(r), e)
        # transitivity
        for _ in range(20):
            if len(objs) < 3: break
            a, b, c = (objs[int(i)][1] for i in rng.choice(len(objs), 3, replace=False))
            try: ok = not (a == b and b == c) or a == c
            except Exception: continue
            mon.check(bool(ok), "transitive", kind=k, a=d)
        # as keys
        if k != "group":
            for q, o, beh in objs[:6]:
                t = {p[1]: i for i, p in enumerate(objs)}
                try: got = t[make(q, k, True)]
                except KeyError: mon.check(False, "key", "not found in a dictionary by an equal key", kind=k, a=q); continue
                mon.check(alike(objs[got][2], beh), "key", "a dictionary returned another object's entry", kind=k, a=q, b=objs[got][0])
    mon.sample({"space": str(sp), "kind": k})


def parts_(mon, o, o2, k, q, objs):
    """the radial and angular factors, and foreign factors"""
    for nm in ("radial", "angular"):
        f = getattr(o, nm)
        mon.check(cmp(mon, f, getattr(o2, nm), nm, a=q) is True, "rebuilt", "%s factor" % nm, a=q)
        for r, p, _ in objs:
            if hasattr(p, nm):
                e = cmp(mon, f, getattr(p, nm), nm, a=q, b=r)
                if e:
                    a, b = ((x.sample(np.linspace(.01, 3, 13)[None]) for x in (f, getattr(p, nm))))
                    mon.check(a.shape == b.shape and np.allclose(a, b, atol=1e-7), "equal-but-different", "%s factors" % nm, a=q, b=r)
                mon.seen("factor", nm, repr(q), repr(r), e)
