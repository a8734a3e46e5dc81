"""Reference definitions of the image functions, written from the documentation (imfit manual, Erwin 2015) in vectorised numpy."""
import numpy as np
from scipy import special

np.seterr(all="ignore")
D2R = np.pi / 180.0


def frame(dx, dy, PA):
    """Coordinates along the major axis (xp) and minor axis (yp); PA counter-clockwise from +y."""
    t = (PA + 90.0) * D2R
    c, s = np.cos(t), np.sin(t)
    return dx * c + dy * s, -dx * s + dy * c


def bn(n):
    if n > 0.36:     # Ciotti & Bertin (1999)
        return 2 * n - 1 / 3. + 4 / (405. * n) + 46 / (25515. * n**2) + 131 / (1148175. * n**3) - 2194697 / (30690717750. * n**4)
    return 0.01945 - 0.8902 * n + 10.95 * n**2 - 19.67 * n**3 + 13.43 * n**4   # MacArthur et al. (2003)


def radius(dx, dy, PA, ell, c0=0.0):
    xp, yp = frame(dx, dy, PA)
    if c0 == 0.0:
        return np.hypot(xp, yp / (1 - ell))
    e = c0 + 2.0
    ax, ay = np.abs(xp), np.abs(yp / (1 - ell))
    m = np.maximum(ax, ay)
    with np.errstate(all="ignore"):
        r = m * ((ax / m) ** e + (ay / m) ** e) ** (1 / e)
    return np.where(m > 0, r, 0.0)


def brokenexp(r, I0, h1, h2, rb, al):
    ex = (1. / h1 - 1. / h2) / al
    return I0 * np.exp(-ex * np.logaddexp(0, -al * rb) - r / h1 + ex * np.logaddexp(0, al * (r - rb)))


def sech_vert(z, n, z0):
    """sech^(2/n)(n z / (2 z0))"""
    a = 2.0 / n
    u = np.abs(z) / (a * z0)
    # log sech(u) = -(u + log1p(exp(-2u)) - log 2)
    return np.exp(-a * (u + np.log1p(np.exp(-2 * u)) - np.log(2.0)))


def sersic(r, n, Ie, re):
    return Ie * np.exp(-bn(n) * ((r / re) ** (1 / n) - 1))


def f_Exponential(p, dx, dy):
    PA, e, I0, h = p
    return I0 * np.exp(-radius(dx, dy, PA, e) / h)


def f_ExpGen(p, dx, dy):
    PA, e, c0, I0, h = p
    return I0 * np.exp(-radius(dx, dy, PA, e, c0) / h)


def f_Sersic(p, dx, dy):
    PA, e, n, Ie, re = p
    return sersic(radius(dx, dy, PA, e), n, Ie, re)


def f_GenSersic(p, dx, dy):
    PA, e, c0, n, Ie, re = p
    return sersic(radius(dx, dy, PA, e, c0), n, Ie, re)


def f_CoreSersic(p, dx, dy):
    PA, e, n, Ib, re, rb, al, ga = p
    r = np.maximum(radius(dx, dy, PA, e), 0.001)   # documented: intensity is finite at the centre (floor at r = 0.001)
    b = bn(n)
    Ip = Ib * 2 ** (-ga / al) * np.exp(b * (2 ** (1 / al) * rb / re) ** (1 / n))
    return Ip * (1 + (rb / r) ** al) ** (ga / al) * np.exp(-b * ((r ** al + rb ** al) / re ** al) ** (1 / (al * n)))


def f_BrokenExp(p, dx, dy):
    PA, e, I0, h1, h2, rb, al = p
    return brokenexp(radius(dx, dy, PA, e), I0, h1, h2, rb, al)


def f_BrokenExp2D(p, dx, dy):
    PA, I0, h1, h2, rb, al, hz = p
    xp, yp = frame(dx, dy, PA)
    return brokenexp(np.abs(xp), I0, h1, h2, rb, al) * np.exp(-np.abs(yp) / hz)


def f_Gaussian(p, dx, dy):
    PA, e, I0, s = p
    return I0 * np.exp(-0.5 * (radius(dx, dy, PA, e) / s) ** 2)


def f_Moffat(p, dx, dy):
    PA, e, I0, fwhm, be = p
    al = 0.5 * fwhm / np.sqrt(2 ** (1 / be) - 1)
    return I0 / (1 + (radius(dx, dy, PA, e) / al) ** 2) ** be


def king(r, I0, rc, rt, al):
    k = (1 + (rt / rc) ** 2) ** (-1 / al)
    v = (1 + (r / rc) ** 2) ** (-1 / al)
    with np.errstate(all="ignore"):
        return np.where(r < rt, I0 * ((v - k) / (1 - k)) ** al, 0.0)


def f_King(p, dx, dy):
    PA, e, I0, rc, rt, al = p
    return king(radius(dx, dy, PA, e), I0, rc, rt, al)


def f_King2(p, dx, dy):
    PA, e, I0, rc, c, al = p
    return king(radius(dx, dy, PA, e), I0, rc, c * rc, al)


def f_FlatSky(p, dx, dy):
    return p[0] + 0 * dx


def f_Tilted(p, dx, dy):
    return p[0] + p[1] * dx + p[2] * dy


def f_Ferrers2D(p, dx, dy):
    PA, e, c0, n, I0, a = p
    m2 = (radius(dx, dy, PA, e, c0) / a) ** 2
    return np.where(m2 <= 1, I0 * np.maximum(1 - m2, 0.0) ** n, 0.0)


def f_FlatBar(p, dx, dy):
    PA, e, dmax, I0, h1, h2, rb, al = p
    xp, yp = frame(dx, dy, PA)
    r = np.hypot(xp, yp / (1 - e))
    rc = np.hypot(xp, yp)
    with np.errstate(all="ignore"):
        d = np.abs(np.arctan2(np.abs(yp), np.abs(xp)))
        f = np.minimum(d / (dmax * D2R), 1.0)
        h2e = h2 + (h1 - h2) * f ** 2          # h2 on the bar major axis, rising parabolically to h1 at deltaPA_max
        h2e = np.where(rc > 0, h2e, h2)
        rbe = np.where(rc > 0, rb * r / np.where(rc > 0, rc, 1), rb)
    return brokenexp(r, I0, h1, h2e, rbe, al)


def f_Ring(p, dx, dy):
    PA, e, A, R, s = p
    return A * np.exp(-0.5 * ((radius(dx, dy, PA, e) - R) / s) ** 2)


def f_Ring2(p, dx, dy):
    PA, e, A, R, si, so = p
    r = radius(dx, dy, PA, e)
    return A * np.exp(-0.5 * ((r - R) / np.where(r < R, si, so)) ** 2)


def f_RingAz(p, dx, dy):
    PA, e, Amaj, Arel, R, s = p
    r = radius(dx, dy, PA, e)
    th = (PA + 90) * D2R - np.arctan2(dy, dx)
    A = 0.5 * (Amaj + Amaj * Arel) + 0.5 * (Amaj - Amaj * Arel) * np.cos(2 * th)
    return A * np.exp(-0.5 * ((r - R) / s) ** 2)


def f_EdgeRing(p, dx, dy):
    PA, A, R, sr, sz = p
    xp, z = frame(dx, dy, PA)
    v = np.exp(-0.5 * (z / sz) ** 2)
    return A * v * (np.exp(-0.5 * ((xp - R) / sr) ** 2) + np.exp(-0.5 * ((xp + R) / sr) ** 2))


def f_EdgeRing2(p, dx, dy):
    PA, A, R, si, so, sz = p
    xp, z = frame(dx, dy, PA)
    v = np.exp(-0.5 * (z / sz) ** 2)
    sl = np.where(xp < -R, so, si)       # left-hand peak: outer side is x < -R
    sr = np.where(xp >= R, so, si)
    return A * v * (np.exp(-0.5 * ((xp + R) / sl) ** 2) + np.exp(-0.5 * ((xp - R) / sr) ** 2))


def f_EdgeDisk(p, dx, dy):
    PA, L0, h, n, z0 = p
    xp, z = frame(dx, dy, PA)
    x = np.abs(xp) / h
    rad = np.where(x > 0, np.where(x > 0, x, 1) * special.k1(np.where(x > 0, x, 1.0)), 1.0)
    return 2 * h * L0 * rad * sech_vert(z, n, z0)


_GLX, _GLW = np.polynomial.legendre.leggauss(24)


_ADAPT = [None]


class adaptive:
    """Within this context line-of-sight integrals are done by QUADPACK QAGS over +-limit."""
    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        _ADAPT[0] = self.limit

    def __exit__(self, *a):
        _ADAPT[0] = None


def los(J, breaks, L, npan=40, fine=()):
    """Integral over s in [-L, L] of J(s) by composite Gauss-Legendre with breakpoints and geometrically refined panels around them."""
    if _ADAPT[0] is not None:
        import warnings
        from scipy.integrate import quad
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return quad(lambda t: float(J(np.array([t]))[0]), -_ADAPT[0], _ADAPT[0], epsabs=0, epsrel=1e-6, limit=1000)[0]
    pts = {-L, L}
    for b, w in breaks:
        if not np.isfinite(b):
            continue
        for k in range(-6, 14):
            for sg in (-1, 1):
                pts.add(b + sg * w * 2.0 ** k)
        pts.add(b)
    pts |= set(np.linspace(-L, L, npan))
    e = np.array(sorted(x for x in pts if -L <= x <= L))
    a, b = e[:-1], e[1:]
    keep = b > a
    a, b = a[keep], b[keep]
    s = 0.5 * (a + b)[:, None] + 0.5 * (b - a)[:, None] * _GLX[None, :]
    return float(np.sum(J(s) * _GLW[None, :] * 0.5 * (b - a)[:, None]))


def _los_points(dx, dy, PA, inc, f):
    dx, dy = np.broadcast_arrays(np.asarray(dx, float), np.asarray(dy, float))
    out = np.zeros(dx.shape)
    ci, si = np.cos(inc * D2R), np.sin(inc * D2R)
    for k in np.ndindex(dx.shape):
        xp, yp = frame(dx[k], dy[k], PA)
        out[k] = f(xp, yp * ci, yp * si, ci, si)
    return out


def disk3d(PA, inc, rad, L, h, n, z0):
    def g(xd, yd0, zd0, ci, si):
        def J(s):
            yd = yd0 + s * si
            zd = zd0 - s * ci
            return rad(np.hypot(xd, yd)) * sech_vert(zd, n, z0)
        br = []
        if abs(ci) > 1e-9:
            br.append((zd0 / ci, z0 / abs(ci)))
        if abs(si) > 1e-9:
            br.append((-yd0 / si, h / abs(si) * 0.05))
        return los(J, br, L)
    return g


def f_ExpDisk3D(p, dx, dy):
    PA, inc, J0, h, n, z0 = p
    return _los_points(dx, dy, PA, inc, disk3d(PA, inc, lambda R: J0 * np.exp(-R / h), 20 * h, h, n, z0))


def f_BrokenExpDisk3D(p, dx, dy):
    PA, inc, J0, h1, h2, rb, al, n, z0 = p
    return _los_points(dx, dy, PA, inc, disk3d(PA, inc, lambda R: brokenexp(R, J0, h1, h2, rb, al), max(20 * rb, 20 * h2), min(h1, h2), n, z0))


def f_Ring3D(p, dx, dy):
    PA, inc, rPA, e, J0, a, s_, hz = p
    t = (rPA + 90) * D2R
    c, sn = np.cos(t), np.sin(t)

    def g(xd, yd0, zd0, ci, si):
        def J(s):
            yd = yd0 + s * si
            zd = zd0 - s * ci
            xo, yo = xd * c + yd * sn, -xd * sn + yd * c
            R = np.hypot(xo, yo / (1 - e))
            return J0 * np.exp(-0.5 * ((R - a) / s_) ** 2 - np.abs(zd) / hz)
        br = []
        if abs(ci) > 1e-9:
            br.append((zd0 / ci, hz / abs(ci)))
        if abs(si) > 1e-9:
            # crossing points of the ring: solve R^2 = a^2 along the line
            # xo = A0 + A1 s ; yo/q = B0 + B1 s
            A0, A1 = xd * c + yd0 * sn, si * sn
            B0, B1 = (-xd * sn + yd0 * c) / (1 - e), si * c / (1 - e)
            qa, qb, qc = A1 * A1 + B1 * B1, 2 * (A0 * A1 + B0 * B1), A0 * A0 + B0 * B0 - a * a
            d = qb * qb - 4 * qa * qc
            w = s_ / max(np.sqrt(qa), 1e-9)
            br.append((-qb / (2 * qa), w))
            if d > 0:
                br += [((-qb + np.sqrt(d)) / (2 * qa), w), ((-qb - np.sqrt(d)) / (2 * qa), w)]
        return los(J, br, 20 * a)
    return _los_points(dx, dy, PA, inc, g)


def f_Ferrers3D(p, dx, dy):
    PA, inc, bPA, J0, R, q, qz, n = p
    t = (bPA + 90) * D2R
    c, sn = np.cos(t), np.sin(t)

    def g(xd, yd0, zd0, ci, si):
        # m^2 along the line is quadratic in s: closed-form chord, then J0 * int (1-m^2)^n ds = J0 * beta-function
        X0, X1 = (xd * c + yd0 * sn) / (q * R), si * sn / (q * R)        # minor axis
        Y0, Y1 = (-xd * sn + yd0 * c) / R, si * c / R                    # major axis
        Z0, Z1 = zd0 / (qz * R), -ci / (qz * R)
        A = X1 * X1 + Y1 * Y1 + Z1 * Z1
        Bq = X0 * X1 + Y0 * Y1 + Z0 * Z1
        C = X0 * X0 + Y0 * Y0 + Z0 * Z0
        d = 1 - (C - Bq * Bq / A)          # 1 - m^2 at the closest point
        if d <= 0:
            return 0.0
        half = np.sqrt(d / A)
        # int_{-half}^{half} (d - A s^2)^n ds = d^n * half * B(1/2, n+1)
        return J0 * d ** n * half * special.beta(0.5, n + 1)
    return _los_points(dx, dy, PA, inc, g)


def f_Peanut(p, dx, dy):
    PA, inc, psi, J0, Rx, q, qz, Rp, Ap, sp, cpar, cperp = p
    c, sn = np.cos(psi * D2R), np.sin(psi * D2R)

    def g(xd, yd0, zd0, ci, si):
        def J(s):
            yd = yd0 + s * si
            zb = zd0 - s * ci
            xb, yb = xd * c + yd * sn, -xd * sn + yd * c
            z0 = Ap * np.exp(-((xb - Rp) ** 2 + yb ** 2) / (2 * sp ** 2)) + Ap * np.exp(-((xb + Rp) ** 2 + yb ** 2) / (2 * sp ** 2)) + qz * Rx
            Rs = ((np.abs(xb) / Rx) ** cperp + (np.abs(yb) / (q * Rx)) ** cperp) ** (cpar / cperp) + (np.abs(zb) / z0) ** cpar
            Rs = Rs ** (1 / cpar)
            return J0 / np.cosh(np.minimum(Rs, 300.0)) ** 2
        br = []
        if abs(ci) > 1e-9:
            br.append((zd0 / ci, qz * Rx / abs(ci)))
        if abs(si) > 1e-9:
            br += [(-yd0 / si, q * Rx / abs(si))]
            if abs(c) > 1e-9:
                br.append(((xd * sn / c - yd0) / si, 0.1 * Rx))
            if abs(sn) > 1e-9:
                br.append(((-xd * c / sn - yd0) / si, 0.1 * Rx))
        return los(J, br, 20 * Rx, npan=120)
    return _los_points(dx, dy, PA, inc, g)


# name: (evaluator, parameter list (name, kind), subsampled?, background?)
F = {
    "Exponential": (f_Exponential, "PA ell I_0:I h:R", True),
    "Exponential_GenEllipse": (f_ExpGen, "PA ell c0 I_0:I h:R", True),
    "Sersic": (f_Sersic, "PA ell n:sersicn I_e:I r_e:R", True),
    "Sersic_GenEllipse": (f_GenSersic, "PA ell c0 n:sersicn I_e:I r_e:R", True),
    "Core-Sersic": (f_CoreSersic, "PA ell n:sersicn I_b:I r_e:R r_b:rb alpha:alphacs gamma:gamma", True),
    "BrokenExponential": (f_BrokenExp, "PA ell I_0:I h1:R h2:R r_break:R alpha:alpha", True),
    "BrokenExponential2D": (f_BrokenExp2D, "PA I_0:I h1:R h2:R r_break:R alpha:alpha h_z:R", True),
    "Gaussian": (f_Gaussian, "PA ell I_0:I sigma:R", True),
    "Moffat": (f_Moffat, "PA ell I_0:I fwhm:R beta:beta", True),
    "ModifiedKing": (f_King, "PA ell I_0:I r_c:R r_t:R alpha:kingalpha", True),
    "ModifiedKing2": (f_King2, "PA ell I_0:I r_c:R c:kingc alpha:kingalpha", True),
    "FlatSky": (f_FlatSky, "I_sky:S", False),
    "TiltedSkyPlane": (f_Tilted, "I_0:S m_x:slope m_y:slope", False),
    "FerrersBar2D": (f_Ferrers2D, "PA ell c0 n:ferrersn I_0:I a_bar:R", True),
    "FlatBar": (f_FlatBar, "PA ell deltaPA_max:dpa I_0:I h1:R h2:R r_break:R alpha:alpha", True),
    "GaussianRing": (f_Ring, "PA ell A:I R_ring:R sigma_r:R", False),
    "GaussianRing2Side": (f_Ring2, "PA ell A:I R_ring:R sigma_r_in:R sigma_r_out:R", False),
    "GaussianRingAz": (f_RingAz, "PA ell A_maj:I A_min_rel:unit R_ring:R sigma_r:R", False),
    "EdgeOnRing": (f_EdgeRing, "PA I_0:I r:R sigma_r:R sigma_z:R", False),
    "EdgeOnRing2Side": (f_EdgeRing2, "PA I_0:I r:R sigma_r_in:R sigma_r_out:R sigma_z:R", False),
    "EdgeOnDisk": (f_EdgeDisk, "PA L_0:I h:R n:vertn z_0:R", True),
    "ExponentialDisk3D": (f_ExpDisk3D, "PA inc J_0:I h:R3 n:vertn z_0:Rz", False),
    "BrokenExponentialDisk3D": (f_BrokenExpDisk3D, "PA inc J_0:I h1:R3 h2:R3 r_break:R3 alpha:alpha n:vertn z_0:Rz", False),
    "GaussianRing3D": (f_Ring3D, "PA inc PA_ring:PA ell:ell8 J_0:I a_ring:R3 sigma:Rz h_z:Rz", False),
    "FerrersBar3D": (f_Ferrers3D, "PA inc barPA:PA J_0:I R_bar:R3 q:axratio q_z:axratio n:ferrersn3", False),
    "DattathriPeanut3D": (f_Peanut, "PA_lon:PA inc barPA:PA J0_bar:I R_bar_x:R3 q:axratio q_z:axratio R_peanut:R A_peanut:Rz sigma_peanut:R3 c_bar_par:cbar c_bar_perp:cbar", False),
}
SPEC = {}
for _n, (_f, _s, _sub) in F.items():
    SPEC[_n] = [(t.split(":")[0], t.split(":")[1] if ":" in t else t) for t in _s.split()]
BACKGROUND = ("FlatSky", "TiltedSkyPlane")
THREED = ("ExponentialDisk3D", "BrokenExponentialDisk3D", "GaussianRing3D", "FerrersBar3D", "DattathriPeanut3D")
POINT = {"PointSource": [("I_tot", "I")], "PointSourceRot": [("PA", "PA"), ("I_tot", "I")]}


def value(name, params, dx, dy):
    return F[name][0](list(params), np.asarray(dx, float), np.asarray(dy, float))
