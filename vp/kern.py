"""Reference model for steerable kernels / operators shared by C08, C09, C10, C13"""
from .ref import *
import e2cnn.kernels as K


def kernel_basis(sp, s, rin, rout, radii, sigma, maxf=None, maxo=None):
    """built through the public factories (None when the library says the basis is empty)"""
    k = sp[0]
    kw = dict(max_frequency=maxf, max_offset=maxo)
    try:
        if k == "triv": return K.kernels_Trivial_act_R2(rin, rout, radii, sigma, **kw)
        if k == "flip": return K.kernels_Flip_act_R2(rin, rout, radii, sigma, axis=sp[1], **kw)
        if k == "rot":
            if sp[1] == -1: return K.kernels_SO2_act_R2(rin, rout, radii, sigma)
            return K.kernels_CN_act_R2(rin, rout, radii, sigma, **kw)
        if sp[1] == -1: return K.kernels_O2_act_R2(rin, rout, radii, sigma, axis=sp[3])
        return K.kernels_DN_act_R2(rin, rout, radii, sigma, axis=sp[2], **kw)
    except K.EmptyBasisException:
        return None


_turn = [0]


def limits(maxf, maxo):
    """absent limits are passed as None or not at all"""
    _turn[0] += 1
    kw = dict(maximum_frequency=maxf, maximum_offset=maxo)
    return kw if _turn[0] % 2 else {k: v for k, v in kw.items() if v is not None}


def space_basis(sp, s, rin, rout, radii, sigma, maxf=None, maxo=None):
    """same, through the space"""
    kw = {}
    if not (len(sp) > 1 and sp[1] == -1 and sp[0] != "flip"):
        kw = limits(maxf, maxo)
    try:
        return s.build_kernel_basis(rin, rout, sigma=sigma, rings=radii, **kw)
    except K.EmptyBasisException:
        return None


def continuous(sp):
    return sp[0] in ("rot", "fliprot") and sp[1] == -1


def group_quadrature(sp, n=64):
    """finite set of elements over which averaging is exact for all frequencies < n"""
    gs = space_gspec(sp)
    els = all_elements(gs)
    if els is not None: return els
    if gs[0] == "SO2": return [TAU * i / n for i in range(n)]
    return [(f, TAU * i / n) for f in (0, 1) for i in range(n)]


def harmonic_char(M, m):
    """character of the (real) harmonics of angular frequency m under the isometry M of the circle"""
    if m == 0: return 1.
    if np.linalg.det(M) < 0: return 0.
    t = math.atan2(M[1, 0], M[0, 0])
    return 2 * math.cos(m * t)


def hom_dims(sp, tin, tout, maxf):
    """dimension of the space of equivariant kernels on the circle of frequency exactly m, for m=0..maxf
       (character formula); tin/tout: functions element -> matrix"""
    els = group_quadrature(sp)
    tr = np.array([np.trace(np.linalg.inv(tin(e))) * np.trace(tout(e)) for e in els])
    out = []
    for m in range(maxf + 1):
        h = np.array([harmonic_char(space_planar(sp, e), m) for e in els])
        out.append(float(np.mean(tr * h)))
    return np.array(out)


# ------------------------------------------------------------------ differential operators
import e2cnn.diffops as D


def diffop_basis(sp, rin, rout, max_power, maxf=None, maxo=None, disc=None):
    kw = dict(max_frequency=maxf, max_offset=maxo)
    if disc is not None: kw["discretization"] = disc
    kc = {k: v for k, v in kw.items() if k == "discretization"}
    k = sp[0]
    try:
        if k == "triv": return D.diffops_Trivial_act_R2(rin, rout, max_power, **kw)
        if k == "flip": return D.diffops_Flip_act_R2(rin, rout, max_power, axis=sp[1], **kw)
        if k == "rot":
            if sp[1] == -1: return D.diffops_SO2_act_R2(rin, rout, max_power, **kc)
            return D.diffops_CN_act_R2(rin, rout, max_power, **kw)
        if sp[1] == -1: return D.diffops_O2_act_R2(rin, rout, max_power, axis=sp[3], **kc)
        return D.diffops_DN_act_R2(rin, rout, max_power, axis=sp[2], **kw)
    except K.EmptyBasisException:
        return None


def space_diffop_basis(sp, s, rin, rout, max_power, maxf=None, maxo=None, disc=None):
    kw = {}
    if not continuous(sp): kw = limits(maxf, maxo)
    try:
        return s.build_diffop_basis(rin, rout, max_power=max_power, discretization=disc or D.DiscretizationArgs(), **kw)
    except K.EmptyBasisException:
        return None


def poly_eval(c, P):
    """c: (..., n+1) coefficients of x^n, x^(n-1) y, ..., y^n; P: (2, N)"""
    n = c.shape[-1] - 1
    mon = np.stack([P[0] ** (n - k) * P[1] ** k for k in range(n + 1)])
    return np.tensordot(c, mon, axes=(-1, 0))
