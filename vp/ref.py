"""Independent reference models: planar geometry, groups, representations, spaces."""
import itertools, math
import numpy as np
import e2cnn.group as G
import e2cnn.gspaces as S
from e2cnn.group import Representation, directsum, change_basis

TAU = 2 * np.pi


# ------------------------------------------------------------------ planar geometry
def R(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s], [s, c]])


F = np.array([[1., 0.], [0., -1.]])


def refl(a):
    return np.array([[math.cos(2 * a), math.sin(2 * a)], [math.sin(2 * a), -math.cos(2 * a)]])


# ------------------------------------------------------------------ groups
# group spec: ("C", N) ("D", N) ("SO2", mf) ("O2", mf)
def grp(spec, fresh=False):
    k = spec[0]
    if k == "C":
        return G.CyclicGroup(spec[1]) if fresh else G.cyclic_group(spec[1])
    if k == "D":
        return G.DihedralGroup(spec[1]) if fresh else G.dihedral_group(spec[1])
    if k == "SO2":
        return G.SO2(spec[1]) if fresh else G.so2_group(spec[1])
    if k == "O2":
        return G.O2(spec[1]) if fresh else G.o2_group(spec[1])
    raise ValueError(spec)


def spec_of(g):
    if isinstance(g, G.CyclicGroup): return ("C", len(g.elements))
    if isinstance(g, G.DihedralGroup): return ("D", len(g.elements) // 2)
    if isinstance(g, (G.SO2, G.O2)):
        m = getattr(g, "_maximum_frequency", None)
        if m is None: m = max(r.attributes["frequency"] for r in g.irreps.values())
        return ("SO2" if isinstance(g, G.SO2) else "O2", m)
    raise ValueError(g)


def parts(spec, e):
    """(flip, angle) of an element"""
    k = spec[0]
    if k == "C": return 0, TAU * e / spec[1]
    if k == "D": return e[0], TAU * e[1] / spec[1]
    if k == "SO2": return 0, e
    if k == "O2": return e[0], e[1]


def planar(spec, e):
    f, t = parts(spec, e)
    return R(t) @ (F if f else np.eye(2))


def all_elements(spec):
    """enumerated independently of the library"""
    if spec[0] == "C": return list(range(spec[1]))
    if spec[0] == "D": return [(f, k) for f in (0, 1) for k in range(spec[1])]
    return None


def rand_angle(rng):
    m = rng.integers(0, 6)
    if m == 0: return float(rng.uniform(0, TAU))
    if m == 1: return float(rng.uniform(-20, 20))
    if m == 2: return float(rng.integers(-8, 9) * np.pi / 4)
    if m == 3: return float(rng.integers(0, 24) * np.pi / 12)
    if m == 4: return float(rng.choice([0., 1e-3, np.pi, TAU, -1e-4, TAU - 1e-6, 1e-9]))
    return float(rng.uniform(-np.pi, np.pi))


def rand_element(spec, rng):
    if spec[0] == "C": return int(rng.integers(0, spec[1]))
    if spec[0] == "D": return (int(rng.integers(0, 2)), int(rng.integers(0, spec[1])))
    if spec[0] == "SO2": return rand_angle(rng)
    return (int(rng.integers(0, 2)), rand_angle(rng))


def sample_elements(spec, rng, n):
    els = all_elements(spec)
    if els is not None:
        if len(els) <= n: return els
        # keep generators, identity and a random rest
        keep = [els[0], els[1], els[len(els) // 2], els[-1]]
        idx = rng.choice(len(els), size=max(0, n - len(keep)), replace=False)
        return keep + [els[i] for i in idx]
    out = []
    base = [0., 2 * np.pi / 3, np.pi / 2, 1.0, np.pi, 5.5]
    if spec[0] == "SO2": out = base[:]
    else: out = [(0, b) for b in base[:4]] + [(1, b) for b in base[:4]]
    out = out[:n]
    while len(out) < n:
        out.append(rand_element(spec, rng))
    return out


def is_identity_mat(m, tol=1e-7):
    return np.allclose(m, np.eye(2), atol=tol)


def irrep_ids(spec, maxf=None):
    k = spec[0]
    if k == "C": return [(i,) for i in range(spec[1] // 2 + 1)]
    if k == "D":
        N = spec[1]
        out = [(0, 0)] + [(1, i) for i in range(N // 2 + 1)]
        if N % 2 == 0: out.append((0, N // 2))
        return out
    m = spec[1] if maxf is None else maxf
    if k == "SO2": return [(i,) for i in range(m + 1)]
    return [(0, 0)] + [(1, i) for i in range(m + 1)]


def irrep_ref(spec, id, e):
    """documented matrix of the irrep with these frequency labels"""
    f, t = parts(spec, e)
    if spec[0] in ("C", "SO2"):
        k = id[0]; j = 0
        real1 = k == 0 or (spec[0] == "C" and 2 * k == spec[1])
        if real1:
            return np.array([[1. if k == 0 else math.cos(k * t)]])
        return R(k * t)
    j, k = id
    if k == 0: return np.array([[-1. if (j and f) else 1.]])
    if spec[0] == "D" and 2 * k == spec[1]:
        return np.array([[math.cos(k * t) * (-1. if (j and f) else 1.)]])
    return R(k * t) @ (F if f else np.eye(2))


def irrep_name(id):
    return "irrep_" + ",".join(str(i) for i in id)


def irrep_dim(spec, id):
    return irrep_ref(spec, id, 0 if spec[0] == "C" else ((0, 0) if spec[0] == "D" else (0. if spec[0] == "SO2" else (0, 0.)))).shape[0]


def id_of_name(name):
    assert name.startswith("irrep_")
    return tuple(int(s) for s in name[6:].split(","))


def ref_matrix(rep, spec, e):
    """matrix of `rep` from its own declared decomposition but with *our* irreps"""
    blocks = [irrep_ref(spec, id_of_name(n), e) for n in rep.irreps]
    return rep.change_of_basis @ block_diag(blocks) @ np.linalg.inv(rep.change_of_basis)


def block_diag(blocks):
    n = sum(b.shape[0] for b in blocks)
    out = np.zeros((n, n)); p = 0
    for b in blocks:
        s = b.shape[0]
        out[p:p + s, p:p + s] = b; p += s
    return out


# ------------------------------------------------------------------ subgroups
def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def subgroup_ids(spec, rng=None, extra=4):
    k = spec[0]
    if k == "C": return divisors(spec[1])
    if k == "D":
        N = spec[1]
        return [(a, n) for n in divisors(N) for a in [None] + list(range(N // n))]
    if k == "SO2":
        return [1, 2, 3, 4, 5, 6, 7, 8, 12]
    axes = [0., np.pi / 2, 1.0, 0.3, 0.302]
    if rng is not None:
        axes += [float(x) for x in rng.uniform(0, TAU, size=extra)]
    out = [(None, -1)] + [(None, n) for n in (1, 2, 3, 4, 5, 6, 8)]
    for a in axes:
        out.append((a, -1))
        for n in (1, 2, 3, 4, 5, 6, 7, 8):
            if a < TAU / n: out.append((a, n))
    return out


def subgroup_spec(spec, id):
    k = spec[0]
    if k == "C" or k == "SO2": return ("C", id)
    a, n = id
    if n == -1: return ("SO2", spec[1]) if a is None else ("O2", spec[1])
    if a is None: return ("C", n)
    if n == 1: return ("C", 2)
    return ("D", n)


def embed(spec, id, h):
    """documented embedding of the subgroup element h, as (flip, angle)"""
    k = spec[0]
    if k in ("C", "SO2"):
        return 0, TAU * h / id
    a, n = id
    if a is None:
        return (0, h) if n == -1 else (0, TAU * h / n)
    aa = TAU * a / spec[1] if k == "D" else a
    if n == 1: return (h, aa if h else 0.)
    if n == -1: return h[0], h[1] + (aa if h[0] else 0.)
    return h[0], TAU * h[1] / n + (aa if h[0] else 0.)


def mat_of(fa):
    return R(fa[1]) @ (F if fa[0] else np.eye(2))


# ------------------------------------------------------------------ spaces
# space spec: ("rot", N) ("rot", -1, mf) ("fliprot", N, axis) ("fliprot", -1, mf, axis) ("flip", axis) ("triv",)
def space(sp):
    k = sp[0]
    if k == "triv": return S.TrivialOnR2()
    if k == "flip": return S.Flip2dOnR2(axis=sp[1])
    if k == "rot":
        if sp[1] == -1: return S.Rot2dOnR2(-1, maximum_frequency=sp[2])
        return S.Rot2dOnR2(sp[1])
    if k == "fliprot":
        if sp[1] == -1: return S.FlipRot2dOnR2(-1, maximum_frequency=sp[2], axis=sp[3])
        return S.FlipRot2dOnR2(sp[1], axis=sp[2])
    raise ValueError(sp)


def space_gspec(sp):
    k = sp[0]
    if k == "triv": return ("C", 1)
    if k == "flip": return ("C", 2)
    if k == "rot": return ("SO2", sp[2]) if sp[1] == -1 else ("C", sp[1])
    return ("O2", sp[2]) if sp[1] == -1 else ("D", sp[1])


def space_axis(sp):
    if sp[0] == "flip": return sp[1]
    if sp[0] == "fliprot": return sp[3] if sp[1] == -1 else sp[2]
    return None


def space_planar(sp, e):
    """the isometry of the plane by which the element acts on points"""
    k = sp[0]
    if k == "triv": return np.eye(2)
    if k == "flip": return refl(sp[1]) if e else np.eye(2)
    f, t = parts(space_gspec(sp), e)
    if k == "rot": return R(t)
    return R(t) @ (refl(space_axis(sp)) if f else np.eye(2))


def is_grid_symmetry(M, tol=1e-9):
    A = np.round(M)
    return np.allclose(M, A, atol=tol)


def grid_action(x, M):
    """y(p) = x(M^-1 p) on the (last two dims) square pixel grid for a signed permutation M; row index grows downwards."""
    A = np.linalg.inv(np.round(M)).round().astype(int)
    H, W = x.shape[-2:]
    r, c = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    X = 2 * c - (W - 1); Y = -(2 * r - (H - 1))
    X2 = A[0, 0] * X + A[0, 1] * Y; Y2 = A[1, 0] * X + A[1, 1] * Y
    if H != W and A[0, 0] == 0:
        raise ValueError("not a symmetry of a non-square grid")
    c2 = (X2 + (W - 1)) // 2; r2 = (-Y2 + (H - 1)) // 2
    return x[..., r2, c2]


def field_action(x, rho, M):
    """reference action on a feature map: channels by rho, pixels by M"""
    y = np.einsum("oi,bi...->bo...", rho, x)
    return grid_action(y, M)


def symmetric_elements(sp):
    """all elements of the space's group (for continuous groups: the finite set) mapping the pixel grid to itself"""
    gs = space_gspec(sp)
    els = all_elements(gs)
    if els is None:
        ax = space_axis(sp)
        if gs[0] == "SO2":
            els = [k * np.pi / 2 for k in range(4)]
        else:
            els = [(0, k * np.pi / 2) for k in range(4)]
            # reflections: R(t) refl(a) is a grid symmetry iff t + 2a is a multiple of pi/2
            els += [(1, float((k * np.pi / 2 - 2 * ax) % TAU)) for k in range(4)]
    return [e for e in els if is_grid_symmetry(space_planar(sp, e))]


# ------------------------------------------------------------------ representation pools
def rand_orth(n, rng):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


def rand_inv(n, rng):
    """well conditioned non orthogonal matrix"""
    return rand_orth(n, rng) @ np.diag(rng.uniform(0.6, 1.6, size=n)) @ rand_orth(n, rng)


def basis_change(k, n, seed):
    """orthogonal for sumcob, cob; merely invertible for sumgl, cobgl"""
    rng = np.random.default_rng(seed); gl = k.endswith("gl"); c = seed % 10
    if c == 0:  # nearly the identity
        N = rng.normal(size=(n, n)) * float(rng.choice([.002, .006, .03]))
        if gl: return np.eye(n) + N
        return np.linalg.solve(np.eye(n) + (N - N.T) / 2, np.eye(n) - (N - N.T) / 2)
    if c == 1:  # (signed) permutations, for gl also rescaled
        Q = np.eye(n)[rng.permutation(n)] * rng.choice([-1., 1.], size=(n, 1))
        return Q * float(rng.choice([.5, 2., 1.25])) if gl else Q
    if c == 2 and gl:  # nearly orthogonal, or triangular
        if rng.integers(2): return rand_orth(n, rng) @ np.diag(1 + rng.uniform(-.02, .02, size=n))
        return np.eye(n) + np.triu(rng.normal(size=(n, n)) * .4, 1)
    return (rand_inv if gl else rand_orth)(n, rng)


def build_rep(g, spec, rs):
    """representation from a nested description `rs`:
       ("irrep", id) ("regular",) ("quotient", sgid) ("induced", sgid, irrepid) ("sum", [rs..]) ("cob", rs, seed)
       ("sumcob", [rs], seed) ("sumgl", [rs], seed) ("cobgl", rs, seed) ("restrict", bigspec, sgid, rs) ("trivial",)"""
    k = rs[0]
    if k == "irrep": return g.irrep(*rs[1])
    if k == "trivial": return g.trivial_representation
    if k == "regular": return g.regular_representation
    if k == "quotient": return g.quotient_representation(tup(rs[1]))
    if k == "induced":
        sg, _, _ = g.subgroup(tup(rs[1]))
        return g.induced_representation(tup(rs[1]), sg.irrep(*rs[2]))
    if k == "sum": return directsum([build_rep(g, spec, r) for r in rs[1]])
    if k in ("sumcob", "sumgl"):
        rr = [build_rep(g, spec, r) for r in rs[1]]
        n = sum(r.size for r in rr)
        return directsum(rr, change_of_basis=basis_change(k, n, rs[2]), name="%s_%d_%d_%s" % (k, rs[2], n, "+".join(r.name for r in rr)))
    if k in ("cob", "cobgl"):
        r = build_rep(g, spec, rs[1])
        return change_basis(r, basis_change(k, r.size, rs[2]), name="%s_%d_%s" % (k, rs[2], r.name),
                            supported_nonlinearities=["norm", "gated"] if k == "cob" else ["gated"])
    raise ValueError(rs)


def tup(x):
    return tuple(x) if isinstance(x, list) else x


def rep_specs(spec, rng, n, maxsize=16, maxf=3, kinds=None):
    """random representation descriptions for a group"""
    out = []
    ids = irrep_ids(spec, maxf=min(maxf, spec[1]) if spec[0] in ("SO2", "O2") else None)
    finite = spec[0] in ("C", "D")
    order = {"C": spec[1], "D": 2 * spec[1]}.get(spec[0], None)
    while len(out) < n:
        k = kinds[int(rng.integers(len(kinds)))] if kinds else ["irrep", "irrep", "regular", "quotient", "induced", "sum", "sumcob", "cob", "sumgl", "cobgl"][int(rng.integers(10))]
        if k == "irrep":
            out.append(("irrep", ids[int(rng.integers(len(ids)))]))
        elif k == "regular" and finite and order <= maxsize:
            out.append(("regular",))
        elif k == "quotient" and finite:
            sgs = [s for s in subgroup_ids(spec) if order // sub_order(spec, s) <= maxsize]
            out.append(("quotient", sgs[int(rng.integers(len(sgs)))]))
        elif k == "induced" and finite:
            sgs = [s for s in subgroup_ids(spec) if 2 * order // sub_order(spec, s) <= maxsize]
            if not sgs: continue
            s = sgs[int(rng.integers(len(sgs)))]
            sids = irrep_ids(subgroup_spec(spec, s))
            out.append(("induced", s, sids[int(rng.integers(len(sids)))]))
        elif k in ("sum", "sumcob", "sumgl"):
            m = int(rng.integers(2, 4))
            rr = [("irrep", ids[int(rng.integers(len(ids)))]) for _ in range(m)]
            out.append(("sum", rr) if k == "sum" else (k, rr, int(rng.integers(1000))))
        elif k in ("cob", "cobgl"):
            m = int(rng.integers(1, 3))
            rr = [("irrep", ids[int(rng.integers(len(ids)))]) for _ in range(m)]
            out.append((k, ("sum", rr) if m > 1 else rr[0], int(rng.integers(1000))))
    return out


def sub_order(spec, id):
    s = subgroup_spec(spec, id)
    return s[1] if s[0] == "C" else 2 * s[1]


def safe_build(g, spec, rs):
    return build_rep(g, spec, rs)


def rep_ref(g, spec, rs, e):
    """fully independent matrix for a description (regular/quotient/induced by documented coset action)"""
    k = rs[0]
    if k == "irrep": return irrep_ref(spec, rs[1], e)
    if k == "trivial": return np.eye(1)
    if k == "sum": return block_diag([rep_ref(g, spec, r, e) for r in rs[1]])
    if k in ("sumcob", "sumgl", "cob", "cobgl"):
        b = block_diag([rep_ref(g, spec, r, e) for r in rs[1]]) if k.startswith("sum") else rep_ref(g, spec, rs[1], e)
        Q = basis_change(k, b.shape[0], rs[2])
        return Q @ b @ np.linalg.inv(Q)
    if k == "regular":
        return induced_ref(spec, {"C": 1, "D": (None, 1)}[spec[0]], None, e)
    if k == "quotient":
        return induced_ref(spec, tup(rs[1]), None, e)
    if k == "induced":
        return induced_ref(spec, tup(rs[1]), rs[2], e)
    raise ValueError(rs)


def mul(spec, a, b):
    if spec[0] == "C": return (a + b) % spec[1]
    if spec[0] == "D": return ((a[0] + b[0]) % 2, (a[1] + (-1 if a[0] else 1) * b[1]) % spec[1])
    if spec[0] == "SO2": return a + b
    return ((a[0] + b[0]) % 2, a[1] + (-1 if a[0] else 1) * b[1])


def inv(spec, a):
    if spec[0] == "C": return (-a) % spec[1]
    if spec[0] == "D": return (a[0], a[1] if a[0] else (-a[1]) % spec[1])
    if spec[0] == "SO2": return -a
    return (a[0], a[1] if a[0] else -a[1])


def elt(spec, fa):
    """finite group element from (flip, angle)"""
    N = spec[1]
    k = int(round(fa[1] * N / TAU)) % N
    return k if spec[0] == "C" else (int(fa[0]), k)


def induced_ref(spec, sgid, irid, e):
    """e_{gH} -> e_{e g H} with representatives = first element of each coset in enumeration order"""
    sspec = subgroup_spec(spec, sgid)
    els = all_elements(spec)
    subs = {elt(spec, embed(spec, sgid, h)): h for h in all_elements(sspec)}
    reps = []; coset = {}
    for g in els:
        if g not in coset:
            reps.append(g)
            for p in subs: coset[mul(spec, g, p)] = g
    d = 1 if irid is None else irrep_dim(sspec, irid)
    M = np.zeros((d * len(reps),) * 2)
    idx = {r: i for i, r in enumerate(reps)}
    for r in reps:
        gr = mul(spec, e, r)
        q = coset[gr]
        h = subs[mul(spec, inv(spec, q), gr)]
        i, j = idx[r], idx[q]
        M[j * d:(j + 1) * d, i * d:(i + 1) * d] = np.eye(1) if irid is None else irrep_ref(sspec, irid, h)
    return M


FINITE = [("C", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16)] + [("D", n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12)]
CONT = [("SO2", 4), ("O2", 4)]


# ------------------------------------------------------------------ representation universe
def build_labels(spec, rng, n_random=10, maxsize=48, maxf=4, induced_limit=40):
    """descriptions of the representations a group provides or that can be derived on it"""
    out = [("irrep", i) for i in irrep_ids(spec, maxf=maxf)]
    if spec[0] in ("C", "D"):
        order = spec[1] * (2 if spec[0] == "D" else 1)
        if order <= maxsize: out.append(("regular",))
        ind = []
        for s in subgroup_ids(spec):
            q = order // sub_order(spec, s)
            if q <= maxsize: out.append(("quotient", s))
            ss = subgroup_spec(spec, s)
            for i in irrep_ids(ss):
                if q * irrep_dim(ss, i) <= maxsize: ind.append(("induced", s, i))
        if len(ind) > induced_limit:
            ind = [ind[int(i)] for i in rng.choice(len(ind), induced_limit, replace=False)]
        out += ind
    out += rep_specs(spec, rng, n_random, maxsize=maxsize, maxf=maxf, kinds=["sum", "sumcob", "cob", "sumgl", "cobgl"])
    # sums of bigger things
    big = rep_specs(spec, rng, 4, maxsize=12, maxf=maxf)
    out.append(("sum", big[:2])); out.append(("sumcob", big[2:4], int(rng.integers(1000)))); out.append(("sumgl", big[1:3], int(rng.integers(1000))))
    return out


def super_specs(spec):
    """(bigger group spec, subgroup id) whose subgroup is `spec`"""
    n = spec[1]
    if spec[0] == "C":
        out = [(("C", 2 * n), n), (("C", 3 * n), n), (("D", n), (None, n)), (("D", 2 * n), (None, n)), (("SO2", 6), n), (("O2", 6), (None, n))]
        if n == 2:
            out += [(("D", k), (a, 1)) for k in (1, 2, 3, 4, 5) for a in range(k)] + [(("O2", 5), (a, 1)) for a in (0., 1., 2.5, 5.)]
        return out
    if spec[0] == "D":
        if n == 1: return []
        return [(("D", 2 * n), (a, n)) for a in range(2)] + [(("D", 3 * n), (a, n)) for a in range(3)] + \
               [(("O2", 6), (a, n)) for a in (0., 0.25, 2.0 / n)]
    return []
