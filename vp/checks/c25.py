import os, pickle, copy
from ..mods import *
from .c24 import sub_space
from ..kern import kernel_basis, space_basis, diffop_basis, space_diffop_basis, K, D
from e2cnn.nn import init, tensor_directsum
from e2cnn.group import change_basis, Representation
import e2cnn.diffops

RULE = "distinct (target object, history of constructions, conversions, loads and uses before it) rebuilt and compared with the same target built in a fresh process, or kept alive and observed again after every later event; plus calls whose mutable arguments were compared before and after"
ASSUMPTIONS = ["the reference is the same description evaluated in a process forked before anything was built", "comparison at 1e-5 relative (deterministic float computations)",
               "mutating arrays the library returned, or arguments after passing them, is not part of the histories (except the list given to FieldType)"]

SPS = [("triv",), ("flip", 0.), ("flip", np.pi / 2), ("flip", .4), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 8), ("rot", -1, 2), ("rot", -1, 4), ("fliprot", 2, np.pi / 2), ("fliprot", 3, .3), ("fliprot", 4, 0.), ("fliprot", 4, np.pi / 4),
       ("fliprot", 6, np.pi / 2), ("fliprot", -1, 2, np.pi / 2), ("fliprot", -1, 3, 0.)] + MORE_SPACES[0:2]
OBJ = ["group", "rep", "restrict", "kbasis", "dbasis", "layer", "layer", "layer", "module", "module", "model", "irrep"]


def units(tier, rng):
    n = 1 if tier == "quick" else 10
    return [{"sp": sp, "op": "hist", "r": r} for sp in SPS for r in range(6 * n)] + [{"sp": sp, "op": "args", "r": r} for sp in SPS for r in range(n)]


# ------------------------------------------------------------------ targets: description -> object -> observed behaviour
def other(rng, sp):
    """a space related to sp: same group with another axis / frequency, or another one"""
    r = int(rng.integers(3))
    if r == 0:
        if sp[0] == "flip": return ("flip", float(rng.choice([0., .4, np.pi / 4, np.pi / 2, 1.9])))
        if sp[0] == "fliprot": return sp[:-1] + (float(rng.choice([0., .3, np.pi / 8, np.pi / 4, np.pi / 2, 2.])),)
        if sp[0] == "rot" and sp[1] == -1: return ("rot", -1, int(rng.integers(1, 6)))
    if r == 1: return SPS[int(rng.integers(len(SPS)))]
    return sp


def describe(rng, sp, kind=None):
    """a target as plain data; nothing of the library is built"""
    kind = kind or str(rng.choice(OBJ)); seed = int(rng.integers(2 ** 31)); gs = space_gspec(sp)
    rs = lambda ms=8: rep_specs(gs, rng, 1, maxsize=ms, maxf=3)[0] if rng.integers(5) else ("trivial",)
    d = {"kind": kind, "sp": sp, "seed": seed}
    if kind in ("group", "irrep"): d["maxf"] = int(rng.integers(1, 6))
    elif kind == "rep":
        d["rs"] = rs(); d["id"] = restrict_id(rng, sp)
        if rng.integers(2): d["names"] = "shared:%d" % int(rng.integers(3))
    elif kind == "restrict":
        d["rs"] = [rs(), rs()]; d["id"] = restrict_id(rng, sp)
        if rng.integers(2): d["names"] = "shared:%d" % int(rng.integers(3))
    elif kind in ("kbasis", "dbasis"):
        d["rs"] = [rs(5), rs(5)]; n = int(rng.integers(1, 3))
        d["rings"] = sorted(round(float(x), 2) for x in rng.uniform(.3, 2, size=n)); d["sigma"] = [round(float(x), 2) for x in rng.uniform(.3, 1, size=n)]
        d["maxf"] = int(rng.integers(0, 4)); d["power"] = int(rng.integers(0, 3)); d["via"] = bool(rng.integers(2))
    elif kind == "layer":
        d["lay"] = str(rng.choice(["conv", "conv", "convT", "diffop"]))
        a = [rs(5) for _ in range(int(rng.integers(1, 3)))]; b = [rs(5) for _ in range(int(rng.integers(1, 3)))]
        if rng.integers(2): a = (a * 2)[:3]
        d["tin"], d["tout"] = a, b
        k = int(rng.choice([1, 3, 3, 5]))
        d["cfg"] = dict(kernel_size=k if d["lay"] != "diffop" else max(k, 3), padding=1, bias=True)
        if rng.integers(4) == 0: d["cfg"]["dilation"] = 2
        if rng.integers(3) == 0: d["names"] = "shared"
        d["bcfg"] = rand_basis_config(rng, d["lay"], k, d["cfg"].get("dilation", 1))
    elif kind == "module":
        d["m"] = str(rng.choice(ALL))
        if rng.integers(3) == 0: d["names"] = rand_names(rng)
    return d


def rand_names(rng):
    return ["shared", "shared", "shared:%d" % int(rng.integers(3))][int(rng.integers(3))]


def renamed(names):
    """(representation) -> the same (or, for permutation representations, with permuted basis) under a name shared by all of them"""
    if names is None: return None

    def f(r):
        if r.size == 1: return r
        nl = sorted(r.supported_nonlinearities); Q = np.eye(r.size)
        if ":" in names and "pointwise" in nl:
            Q = Q[np.random.default_rng(int(names.split(":")[1])).permutation(r.size)]; nl = [n for n in nl if not n.startswith("induced")]
        return change_basis(r, Q, "shared", supported_nonlinearities=nl)
    return f


class names_as:
    def __init__(self, names): self.f = renamed(names)
    def __enter__(self): Ty.rename = None if self.f is None else staticmethod(self.f)
    def __exit__(self, *a): Ty.rename = None


def vary(rng, d):
    """a description which differs from d in one ingredient (a candidate for being confused with d)"""
    d = copy.deepcopy(d); k = d["kind"]; sp = d["sp"]; ch = []
    near = lambda v: round(float(v) * (1 + float(rng.choice([-1, 1]) * rng.choice([3e-2, 3e-2, 5e-3, 1e-3]))), 5)
    if sp[0] in ("flip", "fliprot"): ch += [("sp", sp[:-1] + (float(sp[-1] + rng.choice([-1, 1]) * rng.choice([3e-2, 4e-3, 4e-4])),))] * 2
    if sp[0] == "flip": ch.append(("sp", ("flip", float(rng.choice([0., .4, np.pi / 4, np.pi / 2, 1.9])))))
    if sp[0] == "fliprot": ch.append(("sp", sp[:-1] + (float(rng.choice([0., .3, np.pi / 8, np.pi / 4, np.pi / 2, 2.])),)))
    if sp[0] == "rot" and sp[1] == -1: ch.append(("sp", ("rot", -1, int(rng.integers(1, 6)))))
    reseed = lambda x: tuple(reseed(y) for y in x) if isinstance(x, (list, tuple)) and x and x[0] not in ("cob", "sumcob", "sumgl", "cobgl") else (x[0], x[1], x[2] + 1) if isinstance(x, (list, tuple)) and x else x
    if k in ("rep", "restrict", "kbasis", "dbasis"): ch.append(("rs", reseed(d["rs"])))
    if k in ("rep", "restrict"):
        ch += [("names", "shared:%d" % int(rng.integers(3)))] * 2
        i = d["id"]
        if isinstance(i, tuple) and isinstance(i[0], float) and i[1] != -1 and i[0] + 4e-3 < TAU / max(i[1], 1): ch += [("id", (i[0] + float(rng.choice([3e-3, 4e-4])), i[1]))] * 2
    if k == "layer":
        b = dict(d["bcfg"]); c = dict(d["cfg"])
        ch += [("tin", [reseed(x) for x in d["tin"]]), ("tout", [reseed(x) for x in d["tout"]]), ("tin", d["tin"][::-1]), ("tout", d["tout"] + d["tout"][:1]), ("names", "shared" if d.get("names") is None else None),
               ("cfg", {q: v for q, v in dict(c, kernel_size={3: 5, 5: 3}.get(c.get("kernel_size"), 3)).items() if q != "accuracy"}), ("cfg", dict(c, dilation=3 - c.get("dilation", 1))), ("bcfg", dict(b, maximum_offset=b.get("maximum_offset", 0) + 1))]
        if d["lay"] == "diffop":
            ch += [("cfg", {q: v for q, v in dict(c, maximum_order=int(rng.integers(0, 3))).items() if q != "accuracy"}), ("cfg", dict(c, maximum_power=int(rng.integers(0, 2)))), ("cfg", {q: v for q, v in dict(c, maximum_order=2, accuracy=4).items() if q != "kernel_size"})]
            ch += [("cfg", dict(c, cache=[True, "load", "store", False][int(rng.integers(4))]))] * 2
            if sp[0] in ("rot", "triv"): ch += [("cfg", dict(c, angle_offset=float(rng.uniform(0, 6)))), ("cfg", dict(c, angle_offset=near(c.get("angle_offset", .7))))]
        else:
            b.pop("fco", None)
            ch += [("bcfg", dict(b, sigma=round(float(rng.uniform(.3, .9)), 3))), ("bcfg", dict(b, frequencies_cutoff=float(rng.choice([-1., -2., -3., 1., 2.])))), ("lay", "conv" if d["lay"] == "convT" else "convT")]
            w = .6 if b.get("sigma") is None else b["sigma"]
            ch += [("bcfg", dict(b, sigma=[near(x) for x in w] if isinstance(w, list) else near(w)))] * 3
            if "rings" in b: ch += [("bcfg", dict(b, rings=[near(x) for x in b["rings"]]))] * 2
            if "rings" not in b: ch.append(("bcfg", {q: v for q, v in dict(b, rings=[0., .9]).items() if q != "sigma" or not isinstance(v, list)}))
    elif k in ("kbasis", "dbasis"): ch += [("sigma", [near(x) for x in d["sigma"]]), ("rings", [near(x) for x in d["rings"]]), ("sigma", [x + .1 for x in d["sigma"]]), ("maxf", d["maxf"] + 1), ("power", d["power"] + 1), ("rings", [x + .1 for x in d["rings"]]), ("via", not d["via"])]
    elif k in ("group", "irrep"): ch.append(("maxf", d["maxf"] + 2))
    elif k in ("module", "model"): ch.append(("seed", d["seed"] + 1))
    if k == "module": ch += [("names", rand_names(rng)), ("names", rand_names(rng))]
    if ch:
        q, v = ch[int(rng.integers(len(ch)))]; d[q] = v
    return d


class Empty(Exception):
    pass


_SPACES = {}


def shared_space(sp):
    """mostly the same object, such that what a space remembers is part of the history"""
    if sp not in _SPACES: _SPACES[sp] = space(sp)
    return _SPACES[sp]


def typ(d, s, specs):
    t = Ty(d["sp"], s, specs)
    if d.get("names") is None: return t
    memo = {}
    for x, r in zip(t.specs, t.reps):
        if x not in memo: memo[x] = r if r.size == 1 else change_basis(r, np.eye(r.size), "shared", supported_nonlinearities=sorted(r.supported_nonlinearities))
    return Ty(d["sp"], s, specs, reps=[memo[x] for x in t.specs])


def make(d):
    """build the object; raises Empty for bands without kernels"""
    sp = d["sp"]; gs = space_gspec(sp); k = d["kind"]
    if k == "group": return grp(gs)
    if k == "irrep":
        g = grp(gs); n = d["maxf"]
        return [g.irrep(*i) for i in irrep_ids(gs, n)]
    s = shared_space(sp)
    def named(r):
        if d.get("names") is None: return r
        return change_basis(r, rand_orth(r.size, np.random.default_rng(int(d["names"].split(":")[1]))), "shared", supported_nonlinearities=["norm"])
    if k == "rep": return named(build_rep(s.fibergroup, gs, d["rs"]))
    if k == "restrict":
        ft = FieldType(s, [named(build_rep(s.fibergroup, gs, r)) for r in d["rs"]])
        return ft.restrict(d["id"]) if d["id"] is not None else ft
    if k in ("kbasis", "dbasis"):
        a, b = [build_rep(s.fibergroup, gs, r) for r in d["rs"]]
        if k == "kbasis": x = (space_basis if d["via"] else kernel_basis)(sp, s, a, b, list(d["rings"]), list(d["sigma"]), d["maxf"], None)
        else:
            disc = D.DiscretizationArgs() if not hasattr(D, "x") else None
            x = space_diffop_basis(sp, s, a, b, d["power"], d["maxf"], None) if d["via"] else diffop_basis(sp, a, b, d["power"], d["maxf"], None)
        if x is None: raise Empty()
        return x
    if k == "layer":
        try: l = make_layer(d["lay"], typ(d, s, d["tin"]), typ(d, s, d["tout"]), d["cfg"], d["bcfg"])
        except ValueError as e:
            if "empty" in str(e): raise Empty()
            raise
        if l.weights.numel() == 0: raise Empty()
        setp(l, d["seed"]); return l
    if k == "module":
        with names_as(d.get("names")): i = rand_module(np.random.default_rng(d["seed"]), sp, s, d["m"])
        if i is None: raise Empty()
        setp(i.m, d["seed"]); return i
    if k == "model":
        rng = np.random.default_rng(d["seed"])
        for _ in range(10):
            desc = rand_model(rng, sp, s, depth=1, dropout=False)
            try: m = build_model(sp, s, desc); break
            except ValueError as e:
                if "empty" not in str(e): raise
        else: raise Empty()
        setp(m, d["seed"]); return m
    raise KeyError(k)


def setp(m, seed):
    rng = np.random.default_rng(seed)
    with torch.no_grad():
        for _, p in sorted(m.named_parameters()): p.copy_(t32(rng.normal(size=tuple(p.shape))))


def repfp(r, gs, seed, pre=""):
    els = sample_elements(gs, np.random.default_rng(seed), 5)
    return {pre + "size": r.size, pre + "irreps": list(r.irreps), pre + "nl": sorted(r.supported_nonlinearities), pre + "cob": np.array(r.change_of_basis), pre + "mats": np.stack([np.array(r(e)) for e in els]),
            pre + "triv": bool(r.is_trivial())}


def look(d, o):
    """observed behaviour of the object"""
    sp = d["sp"]; gs = space_gspec(sp); k = d["kind"]; out = {}
    if k == "group":
        els = sample_elements(gs, np.random.default_rng(d["seed"]), 6)
        out["order"] = o.order(); out["name"] = o.name
        out["prod"] = [repr(planar_key(gs, o.combine(a, b))) for a in els for b in els]; out["inv"] = [repr(planar_key(gs, o.inverse(a))) for a in els]
        for i in irrep_ids(gs, d["maxf"]): out["irrep%s" % (i,)] = np.stack([np.array(o.irrep(*i)(e)) for e in els])
        if gs[0] in ("C", "D"): out["regular"] = np.stack([np.array(o.regular_representation(e)) for e in els]); out["elements"] = [repr(e) for e in o.elements]
        for i in subgroup_ids(gs)[:4]:
            sg, up, down = o.subgroup(i); out["sub%s" % (i,)] = [sg.name, repr([planar_key(gs, up(h)) for h in (sample_elements(spec_of(sg) if gs[0] != "SO2" or 1 else gs, np.random.default_rng(1), 3))])]
    elif k == "irrep":
        for n, r in enumerate(o): out.update(repfp(r, gs, d["seed"], "%d:" % n)); out["%d:name" % n] = r.name
    elif k == "rep":
        out = repfp(o, gs, d["seed"])
        if d["id"] is not None:
            q = o.restrict(d["id"]); out.update(repfp(q, spec_of(q.group), d["seed"], "restricted:"))
        out.update(repfp(directsum([o, o]), gs, d["seed"], "sum:"))
        P, ps = e2cnn.group.disentangle(o); out["split"] = np.array(P)
        for n, p in enumerate(ps): out.update(repfp(p, gs, d["seed"], "part%d:" % n))
    elif k == "restrict":
        g2 = spec_of(o.gspace.fibergroup)
        for n, r in enumerate(o.representations): out.update(repfp(r, g2, d["seed"], "%d:" % n))
        q = sub_space(sp, d["id"]) if d["id"] is not None else sp
        if q:
            e = space(q); out["same-space"] = bool(o.gspace == e and e == o.gspace); out["same-type"] = bool(FieldType(e, [e.trivial_repr]) == FieldType(o.gspace, [o.gspace.trivial_repr])); out["same-irreps"] = all(bool(e.fibergroup.irreps[i] == o.gspace.fibergroup.irreps[i]) for r in o.representations for i in r.irreps if i in e.fibergroup.irreps)
            out["sum"] = (FieldType(e, [e.trivial_repr]) + o).size
        out["space"] = o.gspace.name; out["axis"] = float(getattr(o.gspace, "axis", -1.) or 0.)
    elif k in ("kbasis", "dbasis"):
        rng = np.random.default_rng(d["seed"])
        out["dim"] = len(o)
        if k == "kbasis": out["sample"] = np.array(o.sample(rng.normal(size=(2, 7)) * 1.5))
        else: out["coef"] = [np.array(c) for c in o.coefficients] if hasattr(o, "coefficients") else []; g = np.stack(np.meshgrid(np.arange(-3., 4), np.arange(3., -4, -1))).reshape(2, -1); out["sample"] = np.array(o.sample(g))
        out["attr"] = [{q: repr(v) if not isinstance(v, float) else round(v, 6) for q, v in a.items() if q not in ("id",)} for a in o]
    elif k == "layer":
        with torch.no_grad():
            o.train(); f, b = o.expand_parameters(); out["filter"] = npy(f); out["bias"] = npy(b) if b is not None else 0
            x = t32(np.random.default_rng(d["seed"] + 1).normal(size=(1, o.in_type.size, 10, 10)))
            out["train"] = npy(o(GeometricTensor(x, o.in_type)).tensor); o.eval(); out["eval"] = npy(o(GeometricTensor(x, o.in_type)).tensor); o.train()
            st = torch.get_rng_state()
            for c in (True, False):
                torch.manual_seed(d["seed"] % 1000); w = torch.zeros(o.weights.numel()); init.generalized_he_init(w, o.basisexpansion, cache=c); out["he%s" % c] = npy(w)
            torch.set_rng_state(st)
        out["state"] = [(n, tuple(v.shape), str(v.dtype)) for n, v in o.state_dict().items()]
        out["out"] = str(o.out_type)
    elif k == "module":
        rng = np.random.default_rng(d["seed"] + 1); hw = o.shape(rng)
        if hw is not None:
            o.m.eval()
            with torch.no_grad():
                y = o.call([t32(rng.normal(size=(2, t.size) + hw)) for t in o.tins]); out["y"] = npy(y.tensor); out["type"] = [r.size for r in y.type.representations]
    elif k == "model":
        o.eval(); x = t32(np.random.default_rng(d["seed"] + 1).normal(size=(2, o.in_type.size, 9, 9)))
        with torch.no_grad():
            try: out["y"] = npy(o(GeometricTensor(x, o.in_type)).tensor)
            except RuntimeError as e: out["y"] = "too small"
    return out


def planar_key(gs, e):
    return np.round(planar(gs, e), 6).tolist()


def same(a, b):
    """None or the name of the first difference"""
    if set(a) != set(b): return "keys %s" % sorted(set(a) ^ set(b))[:3]
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape: return "%s: shape %s instead of %s" % (k, x.shape, y.shape)
            if x.size and not np.allclose(np.nan_to_num(x), np.nan_to_num(y), rtol=1e-5, atol=1e-5 * max(1., np.abs(np.nan_to_num(y)).max())): return "%s: differs by %.2e" % (k, np.abs(np.nan_to_num(x) - np.nan_to_num(y)).max())
        elif isinstance(x, list) and x and isinstance(x[0], np.ndarray):
            if len(x) != len(y): return "%s: %d instead of %d" % (k, len(x), len(y))
            r = same(dict(enumerate(x)), dict(enumerate(y)))
            if r: return "%s: %s" % (k, r)
        elif x != y: return "%s: %s instead of %s" % (k, repr(x)[:150], repr(y)[:150])
    return None


def observe(d):
    """make + look; exceptions are results too"""
    try: return look(d, make(d))
    except Empty: return {"empty": True}
    except Exception as e: return {"exception": type(e).__name__ + ": " + str(e)[:200]}


def fresh(d):
    """the same target in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f: pickle.dump(observe(d), f)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


# ------------------------------------------------------------------ history events
def event(mon, rng, targets, d):
    """something else happens (often related to the target d); returns its description. Exceptions of deliberately invalid requests are ignored"""
    k = int(rng.integers(14)); what = ["vary", "vary", "build", "vary", "vary", "frequency", "samename", "convert", "load", "init", "train", "invalid", "diskcache", "rng"][k]
    if what == "build": q = describe(rng, other(rng, d["sp"])); observe(q); return ("build", repr(q))
    if what == "vary":
        q = d
        for _ in range(int(rng.integers(1, 4))): q = vary(rng, q) if rng.integers(3) else vary(rng, d); observe(q)
        return ("vary", repr(q))
    if what == "frequency":
        n = int(rng.integers(1, 8)); G_ = __import__("e2cnn.group", fromlist=["x"])
        (G_.so2_group if rng.integers(2) else G_.o2_group)(n); return ("frequency", n)
    if what == "samename":
        q = describe(rng, d["sp"], "rep"); g = grp(space_gspec(d["sp"]))
        try:
            r = build_rep(g, space_gspec(d["sp"]), q["rs"]); t = build_rep(g, space_gspec(d["sp"]), d["rs"]) if d["kind"] == "rep" else r
            c = change_basis(r, rand_orth(r.size, rng), t.name); s = space(d["sp"]); ft = FieldType(s, [c, c]); enn.R2Conv(ft, ft, 3, padding=1)
        except (AssertionError, ValueError): pass
        return ("samename", repr(q))
    lay = [x for x in targets if x["kind"] in ("layer", "model")]
    if what in ("convert", "load", "init", "train") and lay:
        x = lay[int(rng.integers(len(lay)))]
        try: t = make(x)
        except Exception as e: return ("not-built", type(e).__name__)
        if what == "convert":
            c = str(rng.choice(["double", "half", "bfloat16"])); getattr(t, c)(); return ("convert", c, repr(x))
        if what == "load":
            v = vary(rng, x)
            try: u = make(v); t.load_state_dict(u.state_dict(), strict=False)
            except Exception: pass
            sd = {k: (v + 1 if v.dtype.is_floating_point else v) for k, v in t.state_dict().items()}
            try: t.load_state_dict(sd)
            except RuntimeError: pass
            return ("load", repr(v))
        if what == "init" and x["kind"] == "layer":
            init.generalized_he_init(t.weights.data, t.basisexpansion, cache=True)
            try: init.deltaorthonormal_init(t.weights.data, t.basisexpansion)
            except AssertionError: pass
            return ("init", repr(x))
        t.train(); y = None
        try: y = t(GeometricTensor(torch.randn(2, t.in_type.size, 7, 7), t.in_type))
        except (RuntimeError, ValueError): return ("train-small",)
        y.tensor.pow(2).sum().backward()
        with torch.no_grad():
            for p in t.parameters():
                if p.grad is not None: p -= .1 * p.grad
        t.eval()
        try: t.export()
        except NotImplementedError: pass
        t.train(); copy.deepcopy(t); return ("train", repr(x))
    if what == "invalid":
        s = space(d["sp"]); g = s.fibergroup
        for f in (lambda: Representation(g, "bad", [list(g.irreps)[0]] * 2, np.eye(3), supported_nonlinearities=[]), lambda: Representation(g, "bad", ["nope"], np.eye(1), supported_nonlinearities=[]),
                  lambda: s.restrict('x'), lambda: s.restrict((None, 'x')), lambda: g.subgroup((3, 5, 7)), lambda: g.irrep(-5), lambda: g.irrep(99, 99), lambda: g.quotient_representation("x"), lambda: g.induced_representation(1, s.trivial_repr),
                  lambda: s.build_kernel_basis(s.trivial_repr, s.trivial_repr, sigma=[.5], rings=[1., 2.]), lambda: enn.R2Conv(FieldType(s, [s.trivial_repr]), FieldType(s, [s.trivial_repr]), kernel_size=3, frequencies_cutoff="x"),
                  lambda: enn.R2Conv(FieldType(s, [s.trivial_repr]), FieldType(s, [s.trivial_repr]), kernel_size=3, frequencies_cutoff=lambda r: -1)):
            try: f()
            except Exception: pass
        return ("invalid", d["sp"])
    if what == "diskcache":
        e2cnn.diffops.store_cache("c.pickle" if rng.integers(2) else "./sub/c.pickle")
        e2cnn.diffops.load_cache("c.pickle" if rng.integers(2) else "./sub/c.pickle"); return ("diskcache",)
    np.random.seed(int(rng.integers(1000))); torch.manual_seed(int(rng.integers(1000))); return ("rng",)


def hist(mon, rng, sp):
    quick = mon.tier == "quick"
    targets = [describe(rng, sp if rng.integers(3) else other(rng, sp)) for _ in range(9)]
    targets += [vary(rng, targets[int(rng.integers(len(targets)))]) for _ in range(4)]
    ref = [fresh(d) for d in targets]
    for d, f in zip(targets, ref):
        if "exception" in f: mon.seen("fresh-exception", d["kind"], f["exception"][:40])
    alive = {}
    log = []
    for step in range(28 if quick else 60):
        i = int(rng.integers(len(targets))); d, f = targets[i], ref[i]
        try: ev = event(mon, rng, targets, d if rng.integers(4) else targets[int(rng.integers(len(targets)))])
        except Exception as e:
            import traceback
            mon.check(False, "event-raises", "%s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:]), history=log[-6:], space=sp); ev = ("raised",)
        log.append(ev); mon.seen("event", ev[0])
        got = observe(d)
        r = same(got, f)
        mon.check(r is None, "history", "rebuilt %s after %d events: %s" % (d["kind"], len(log), r), target=d, history=[str(x)[:160] for x in log[-5:]])
        mon.seen("rebuilt", repr(d), repr(log))
        for j in list(alive):
            r = same(look(targets[j], alive[j]), ref[j])
            if not mon.check(r is None, "alive", "%s changed after %s: %s" % (targets[j]["kind"], str(ev)[:200], r), target=targets[j], history=[str(x)[:160] for x in log[-5:]]): del alive[j]
            mon.seen("alive", repr(targets[j]), repr(log))
        if len(alive) < 5 and i not in alive and "empty" not in f and "exception" not in f:
            try: alive[i] = make(d)
            except Exception as e: mon.check(False, "history", "building raised %s" % e, target=d, history=[str(x)[:160] for x in log[-5:]])


def names(mon, rng, sp):
    """a layer does not depend on the names of its representations"""
    d = describe(rng, sp, "layer"); d["names"] = None; d["cfg"]["kernel_size"] = 3; d["bcfg"] = {}
    gs = space_gspec(sp); more = [x for x in rep_specs(gs, rng, 3, maxsize=4, maxf=3)]
    d["tin"] = d["tin"] + more[:1]; d["tout"] = d["tout"] + more[1:2]
    if rng.integers(2): d["tin"] = [d["tin"][int(i)] for i in rng.integers(0, len(d["tin"]), size=3)]
    sp_ = []
    try:
        for nm in (None, "shared"):
            l = make(dict(d, names=nm)); n = l.weights.numel(); B = []
            for k in range(n):
                with torch.no_grad(): l.weights.zero_(); l.weights[k] = 1.; B.append(npy(l.expand_parameters()[0]).ravel())
            sp_.append(np.stack(B))
    except Empty: return
    a, b = sp_
    ok = a.shape == b.shape
    if ok:
        ra, rb, rab = (np.linalg.matrix_rank(q, tol=1e-3) for q in (a, b, np.concatenate([a, b])))
        ok = ra == rb == rab
    mon.check(ok, "names-matter", "filters of a layer whose representations share a name differ: %s %s" % (a.shape, b.shape), target=d); mon.seen("names", repr(d))


def module_names(mon, rng, sp):
    """nor does any other module"""
    k = str(rng.choice([q for q in ALL if q not in ("conv", "convT", "diffop", "vector")])); seed = int(rng.integers(2 ** 31)); s = shared_space(sp); out = []
    for nm in (None, "shared"):
        st = torch.get_rng_state(); torch.manual_seed(seed % 1000)
        try:
            with names_as(nm): i = rand_module(np.random.default_rng(seed), sp, s, k)
        except Exception as e: mon.check(nm is None, "names-raise", "%s: %s %s" % (k, type(e).__name__, str(e)[:200]), space=sp, seed=seed); return
        if i is None: return
        q = np.random.default_rng(seed + 1); hw = i.shape(q)
        if hw is None: return
        ys = []
        for mode in (True, False):
            i.m.train(mode)
            with torch.no_grad(): ys.append(npy(i.call([t32(q.normal(size=(2, t.size) + hw)) for t in i.tins]).tensor))
        torch.set_rng_state(st); out.append(ys)
    r = same(dict(enumerate(out[0])), dict(enumerate(out[1])))
    mon.check(r is None, "names-matter", "%s whose representations share a name: %s" % (k, r), space=sp, seed=seed, options=i.opts, types=[t.specs for t in i.tins]); mon.seen("names", k, sp, seed)


# ------------------------------------------------------------------ arguments of the caller
def frozen(x):
    if isinstance(x, np.ndarray): return ("a", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, torch.Tensor): return ("t", tuple(x.shape), x.detach().clone().numpy().tobytes())
    if isinstance(x, (list, tuple)): return (type(x).__name__,) + tuple(frozen(y) for y in x)
    if isinstance(x, set): return ("s",) + tuple(sorted(repr(y) for y in x))
    if isinstance(x, dict): return ("d",) + tuple((repr(k), frozen(v)) for k, v in x.items())
    if isinstance(x, FieldType): return ("f", x.size, tuple(id(r) for r in x.representations))
    return ("o", id(x))


def args(mon, rng, sp, s):
    gs = space_gspec(sp); g = s.fibergroup
    pl = pool_for(rng, sp, s, n=8, maxsize=6)
    t = Ty(sp, s, draw(rng, pl, 4, maxsize=12, sp=sp, s=s)); n = len(t.specs); sz = t.size
    x = t32(rng.normal(size=(2, sz, 5, 5))); gt = GeometricTensor(x, t.ft)
    lab = [str(q) for q in rng.choice(["a", "b"], size=n)]
    labels = sorted(set(lab))
    perm = [int(q) for q in rng.permutation(n)]
    reps = list(t.reps)
    n2 = sum(r.size for r in reps)
    M = rand_orth(n2, rng); m1 = rand_orth(reps[0].size, rng)
    nl = set(["norm", "gated"]); nll = ["norm"]
    rings = [0., 1.]; sig = [.5, .6]; pts = rng.normal(size=(2, 6))
    byl = t.ft.group_by_labels(lab)
    mods = lambda: [(enn.IdentityModule(byl[l]), l) for l in labels]
    gl = ["gate"] * 2 + ["gated"] * 2; gated = [q for q in pl if has("gated")(build_rep(g, gs, q))]
    G1 = Ty(sp, s, [("trivial",)] * 2 + [gated[0]] * 2) if gated else None
    kb = lambda: space_basis(sp, s, reps[0], reps[0], rings, sig, 2, None)
    calls = [("FieldType", lambda: FieldType(s, reps), (reps,)), ("directsum", lambda: e2cnn.group.directsum(reps), (reps,)),
             ("directsum-cob", lambda: e2cnn.group.directsum(reps, change_of_basis=M, name="ds"), (reps, M)), ("change_basis", lambda: change_basis(reps[0], m1, "nn", supported_nonlinearities=nll), (m1, nll)),
             ("change_basis-set", lambda: change_basis(reps[0], m1, "nn2", supported_nonlinearities=nl), (m1, nl)),
             ("index_select", lambda: t.ft.index_select(perm), (perm,)), ("group_by_labels", lambda: t.ft.group_by_labels(lab), (lab,)), ("FieldType.transform", lambda: t.ft.transform(x, g.identity), (x,)),
             ("add", lambda: gt + gt, (x,)), ("sub", lambda: gt - gt, (x,)), ("mul", lambda: gt * 2., (x,)), ("neg-div", lambda: gt * -.5, (x,)), ("slice", lambda: gt[:, 0:1], (x,)), ("transform", lambda: gt.transform(g.identity), (x,)), ("transform_fibers", lambda: gt.transform_fibers(g.identity), (x,)),
             ("directsum-tensors", lambda: tensor_directsum([gt, gt]), (x,)), ("conv", lambda: enn.R2Conv(t.ft, t.ft, 3, rings=rings, sigma=sig), (rings, sig)), ("convT", lambda: enn.R2ConvTransposed(t.ft, t.ft, 3, rings=rings, sigma=sig), (rings, sig)),
             ("kernel-basis", kb, (rings, sig)), ("kernel-sample", lambda: kb().sample(pts), (pts,)), ("branching", lambda: enn.BranchingModule(t.ft, lab)(gt), (lab, x)),
             ("reshuffle", lambda: enn.ReshuffleModule(t.ft, perm)(gt), (perm, x))]
    ml = mods(); calls.append(("multiple", lambda: enn.MultipleModule(t.ft, lab, ml)(gt), (lab, ml, x)))
    for rsh in (1, 2, 3): ml2 = mods(); calls.append(("multiple-reshuffle", lambda rsh=rsh, ml2=ml2: enn.MultipleModule(t.ft, lab, ml2, reshuffle=rsh)(gt), (lab, ml2, x)))
    br = [(enn.IdentityModule(t.ft), "a"), (enn.IdentityModule(t.ft), "b")]; calls.append(("merge", lambda: enn.MergeModule(br)({"a": gt, "b": gt}), (br, x)))
    if n > 1: brk = [1]; calls.append(("split", lambda: gt.split(brk), (brk, x)))
    if G1 is not None: xg = t32(rng.normal(size=(1, G1.size, 2, 2))); calls.append(("gated", lambda: enn.GatedNonLinearity1(G1.ft, gates=gl)(GeometricTensor(xg, G1.ft)), (gl, xg)))
    for nm, f, a in calls:
        before = [frozen(q) for q in a]
        try: f()
        except (ValueError, K.EmptyBasisException): continue
        except AssertionError:
            if nm != "multiple-reshuffle": raise
            continue
        except Exception as e: mon.check(False, "args-raises", "%s: %s %s" % (nm, type(e).__name__, str(e)[:200]), space=sp, types=t.specs, labels=lab); continue
        mon.check([frozen(q) for q in a] == before, "argument-modified", nm, space=sp, types=t.specs, labels=lab)
        mon.check(all(a_ is b_ for a_, b_ in zip(t.ft.representations, t.reps)) and t.ft.size == sz, "type-modified", nm, space=sp, types=t.specs)
        mon.seen("args", nm, sp, repr(t.specs))
    # the list given to a type is copied
    l = list(t.reps); ft = FieldType(s, l); l.append(s.trivial_repr); l[0] = s.trivial_repr
    mon.check(len(ft) == n and ft == t.ft, "type-follows-list", space=sp, types=t.specs)
    # modules neither modify their input nor keep a handle to it
    for _ in range(6):
        k = str(rng.choice(ALL)); i = rand_module(rng, sp, s, k)
        if i is None: continue
        hw = i.shape(rng)
        if hw is None: continue
        if i.opts and isinstance(i.opts, dict) and i.opts.get("inplace"): continue
        if getattr(i.m, "_inplace", False) or getattr(i.m, "inplace", False): continue
        i.m.eval() if rng.integers(2) else i.m.train()
        xs = [t32(rng.normal(size=(2, q.size) + hw)) for q in i.tins]; b = [frozen(q) for q in xs]
        with torch.no_grad():
            try: y = i.call(xs)
            except ValueError: continue
        mon.check([frozen(q) for q in xs] == b, "input-modified", k, space=sp, options=i.opts); mon.seen("module-input", k, sp)


def run(mon, u):
    sp = tup(u["sp"])
    if u["op"] == "hist": hist(mon, mon.rng, sp)
    else:
        s = space(sp)
        for _ in range(3 if mon.tier == "quick" else 12):
            args(mon, mon.rng, sp, s)
            for _ in range(5): names(mon, mon.rng, sp)
            for _ in range(12): module_names(mon, mon.rng, sp)
    mon.sample({"space": sp, "op": u["op"]})
