from ..kern import *
import os, pickle, subprocess, sys
import e2cnn.diffops.utils as du
from .. import core

RULE = "distinct (operator basis, grid size, spacing, element, monomial) stencil evaluations compared with the exact derivative at the centre"
ASSUMPTIONS = ["only the finite-difference method is available offline (the rbf package needed by 'gauss' and 'rbffd' is not installed)",
               "exactness relative 1e-6 of the largest stencil weight"]

SP = [("triv",), ("flip", 0.), ("flip", 0.3), ("rot", 2), ("rot", 3), ("rot", 4), ("rot", 6), ("rot", -1, 3), ("fliprot", 2, 0.), ("fliprot", 3, np.pi / 2), ("fliprot", 4, 0.7), ("fliprot", 8, np.pi / 2), ("fliprot", -1, 3, 1.0)]


def units(tier, rng):
    us = [{"kind": "exact", "sp": s} for s in SP for _ in range(3 if tier == "quick" else 10)]
    us += [{"kind": "history", "n": i} for i in range(6 if tier == "quick" else 24)]
    us += [{"kind": "cache", "n": i} for i in range(5 if tier == "quick" else 16)]
    us += [{"kind": "points"}]
    return us


def grid(k, h):
    o = (k - 1) / 2
    xs = [(i - o) * h for i in range(k)]
    pts = [(x, -y) for y in xs for x in xs]
    return np.array(pts).T


def deriv_table(c, k):
    """exact P(d) x^a y^b at 0 for a, b < k: c[j] * (n-j)! j! at a=n-j, b=j"""
    n = c.shape[-1] - 1
    out = np.zeros(c.shape[:-1] + (k, k))
    for j in range(n + 1):
        if n - j < k and j < k:
            out[..., n - j, j] = c[..., j] * math.factorial(n - j) * math.factorial(j)
    return out


def judge(mon, basis, k, h, key, ctx, offset=None, sub=None):
    P = grid(k, h)
    S = basis.sample(P)
    if not mon.check(S.shape == (basis.shape[0], basis.shape[1], basis.dim, k * k), "shape", "%s" % (S.shape,), **ctx): return None
    for i, c in enumerate(basis.coefficients):
        if offset is not None:
            c = rotate_poly(c, offset)
        T = deriv_table(c, k)
        mon_vals = np.stack([np.stack([P[0] ** a * P[1] ** b for b in range(k)]) for a in range(k)])  # a b p
        got = np.einsum("oip,abp->oiab", S[:, :, i], mon_vals)
        scale = np.einsum("oip,abp->oiab", np.abs(S[:, :, i]), np.abs(mon_vals))
        err = np.abs(got - T) - 1e-7 * scale - 1e-6 * (1 + np.abs(T))
        if not mon.check((err <= 0).all(), key, "stencil of element %d does not differentiate monomials exactly: max error %.3g at %s" % (
                i, np.abs(got - T).max(), np.unravel_index(np.argmax(err), err.shape)), k=k, h=h, **ctx): return None
        mon.seen("stencil", str(ctx), k, h, i)
    return S


def rotate_poly(c, t):
    """coefficients of x -> P(R(t)^-1 x), by interpolation"""
    n = c.shape[-1] - 1
    th = TAU * np.arange(2 * n + 1) / (2 * n + 1) * 0.5 + 0.1
    Q = np.stack([np.cos(th), np.sin(th)])
    v = poly_eval(c, R(-t) @ Q)
    mons = np.stack([Q[0] ** (n - k) * Q[1] ** k for k in range(n + 1)], -1)
    sol = np.linalg.lstsq(mons, v.reshape(-1, v.shape[-1]).T, rcond=None)[0]
    return sol.T.reshape(c.shape)


def run(mon, u):
    if u["kind"] == "exact": exact(mon, tup(u["sp"]))
    elif u["kind"] == "history": history(mon)
    elif u["kind"] == "points": pointsizes(mon)
    else: cache(mon)


def rand_basis(mon, sp, maxorder):
    rng = mon.rng
    s = space(sp); gs = space_gspec(sp); g = s.fibergroup
    for _ in range(20):
        a, b = rep_specs(gs, rng, 2, maxsize=4, maxf=2)
        rin, rout = build_rep(g, gs, a), build_rep(g, gs, b)
        power = int(rng.integers(0, 3))
        mf = None if continuous(sp) else int(rng.integers(0, 4))
        off = float(rng.uniform(-3, 3)) if rng.integers(4) == 0 else None
        disc = D.DiscretizationArgs(angle_offset=off)
        basis = diffop_basis(sp, rin, rout, power, mf, None, disc) if rng.integers(2) else space_diffop_basis(sp, s, rin, rout, power, mf, None, disc)
        if basis is not None and basis.maximum_order <= maxorder:
            return basis, off, dict(space=sp, rin=a, rout=b, power=power, mf=mf, offset=off)
    return None


def exact(mon, sp):
    rng = mon.rng
    for _ in range(6 if mon.tier == "quick" else 12):
        r = rand_basis(mon, sp, 5)
        if r is None: continue
        basis, off, ctx = r
        for k in sorted({basis.maximum_order + 1, basis.maximum_order + 2, int(rng.integers(basis.maximum_order + 1, 9))}):
            h = float(rng.choice([1, 1, 2, 3, 0.5]))
            if rng.integers(4) == 0: h = near(rng, h)
            S = judge(mon, basis, k, h, "exact", ctx, off)
            if S is None: continue
            m = rng.random(basis.dim) < 0.5
            mon.close(basis.sample_masked(grid(k, h), m), S[:, :, m], "masked", atol=1e-12, **ctx)
            mon.check(np.array_equal(basis.sample(grid(k, h)), S), "repeat", **ctx)
        if basis.maximum_order > 1:
            # too few points: must be rejected, never silently wrong
            need = max(max(max(np.nonzero(np.abs(c).reshape(-1, c.shape[-1]).max(0))[0]), c.shape[-1] - 1 - min(np.nonzero(np.abs(c).reshape(-1, c.shape[-1]).max(0))[0])) for c in basis.coefficients)
            if off is None and need >= 2:
                mon.raises(lambda: basis.sample(grid(need, 1.)), "too-small", "a %d-point grid cannot resolve order %d" % (need, need), **ctx)
    mon.sample({k: str(v) for k, v in ctx.items()})


def near(rng, h):
    """a spacing which is easily confused with h"""
    return float(h * (1 + rng.choice([-1, 1]) * rng.choice([3e-2, 4e-3, 4e-4, 2e-5])))


def history(mon):
    """same stencils whatever was computed before: a shuffled second pass and a pass in a fresh interpreter"""
    rng = mon.rng
    jobs = []
    for _ in range(10):
        sp = SP[int(rng.integers(len(SP)))]
        r = rand_basis(mon, sp, 4)
        if r is None: continue
        k = int(rng.integers(r[0].maximum_order + 1, 8)); h = float(rng.choice([1, 2, .1]))
        jobs.append((r, k, h))
        jobs.append((r, k, near(rng, h)))
    first = [judge(mon, r[0], k, h, "history", r[2], r[1]) for r, k, h in jobs]
    for i in rng.permutation(len(jobs)):
        r, k, h = jobs[int(i)]
        S = judge(mon, r[0], k, h, "history", r[2], r[1])
        if S is None or first[i] is None: continue
        mon.check(np.array_equal(S, first[i]), "history-repeat", **r[2])
        # the caller owns the result: writing into it must not change later results
        S *= 0.5; S += 3
        mon.check(np.array_equal(r[0].sample(grid(k, h)), first[i]), "history-alias", **r[2])


def cache(mon):
    rng = mon.rng
    jobs = []
    for _ in range(6):
        sp = SP[int(rng.integers(len(SP)))]
        r = rand_basis(mon, sp, 4)
        if r is None: continue
        k = int(rng.integers(r[0].maximum_order + 1, 7))
        jobs.append((r, k))
    half = len(jobs) // 2
    path = [os.path.abspath("cache_dir/sub/x.pickle"), "bare.pickle", os.path.abspath("y.pickle")][mon.unit["n"] % 3]
    # a child process computes the first half and stores
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            vals = [r[0].sample(grid(k, 1.)) for r, k in jobs[:half]]
            D.store_cache(path)
            os.write(wr, b"x")
            np.save("vals.npy", np.array(vals, dtype=object), allow_pickle=True)
            code = 0
        except BaseException as e:
            open("err.txt", "w").write(repr(e))
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    os.close(wr); os.close(rd)
    if not mon.check(st == 0, "store", "store_cache failed: %s" % (open("err.txt").read() if os.path.exists("err.txt") else st), path=path): return
    mon.check(os.path.exists(path), "store", "no file", path=path)
    vals = np.load("vals.npy", allow_pickle=True)
    # in this process compute something else first, then load
    pre = [r[0].sample(grid(k, 1.)) for r, k in jobs[half:]]
    D.load_cache(path)
    calls = []
    orig = getattr(du, "finite_diff_weights", None)
    if orig is not None:
        def spy(*a, **kw):
            calls.append(a)
            return orig(*a, **kw)
        du.finite_diff_weights = spy
    try:
        for (r, k), v in zip(jobs[:half], vals):
            n0 = len(calls)
            S = r[0].sample(grid(k, 1.))
            mon.check(np.array_equal(S, v), "restored", "stencils differ after loading the cache", **r[2])
            mon.check(len(calls) == n0, "restored", "stored stencils were recomputed after load_cache", **r[2])
            judge(mon, r[0], k, 1., "cache-exact", r[2], r[1])
            mon.seen("cache", str(r[2]), k)
        for (r, k), v in zip(jobs[half:], pre):
            mon.check(np.array_equal(r[0].sample(grid(k, 1.)), v), "cache-kept", **r[2])
            judge(mon, r[0], k, 1., "cache-exact", r[2], r[1])
    finally:
        if orig is not None: du.finite_diff_weights = orig
    # other grids are not confused with cached ones
    for r, k in jobs: judge(mon, r[0], k + 1, 2., "cache-exact", r[2], r[1])
    with mon.guard("load-missing"):
        D.load_cache(os.path.abspath("does-not-exist.pickle"))


def pointsizes(mon):
    """the advertised relation between number of points, derivative order and accuracy"""
    for order in range(0, 9):
        for acc in range(1, 9):
            n = du.required_points(order, acc)
            mon.check(true_acc(n, order) >= acc and (n == order + 1 or true_acc(n - 1, order) < acc), "required-points", "order %d accuracy %d -> %d points, true accuracy %s" % (order, acc, n, true_acc(n, order)))
            mon.seen("points", order, acc)
    for n in range(2, 10):
        for order in range(1, n):
            mon.check(du.guaranteed_accuracy(n, order) == true_acc(n, order), "guaranteed-accuracy", "n %d order %d: %s true %s" % (n, order, du.guaranteed_accuracy(n, order), true_acc(n, order)))
        for acc in range(1, n):
            o = du.largest_possible_order(n, acc)
            mon.check(true_acc(n, o) >= acc and (o + 1 >= n or true_acc(n, o + 1) < acc), "largest-order", "n %d acc %d -> %d" % (n, acc, o))


_acc = {}


def true_acc(n, order):
    """order of accuracy of the n-point symmetric stencil for the order-th derivative, from the Taylor expansion"""
    if n <= order: return -1
    if order == 0 and n % 2: return 99
    if (n, order) not in _acc:
        x = np.arange(n) - (n - 1) / 2
        from fractions import Fraction as Fr
        xs = [Fr(2 * i - (n - 1), 2) for i in range(n)]
        # solve Vandermonde exactly
        A = [[x ** j for x in xs] + [Fr(math.factorial(order) if j == order else 0)] for j in range(n)]
        for c in range(n):
            p = next(r for r in range(c, n) if A[r][c] != 0); A[c], A[p] = A[p], A[c]
            A[c] = [v / A[c][c] for v in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0: A[r] = [v - A[r][c] * w for v, w in zip(A[r], A[c])]
        w = [A[i][n] for i in range(n)]
        d = n
        while sum(wi * xi ** d for wi, xi in zip(w, xs)) == 0: d += 1
        _acc[(n, order)] = d - order
    return _acc[(n, order)]
