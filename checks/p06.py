"""P06: point sources reproduce the shifted PSF scaled by their total flux."""
import os, math
import numpy as np
from scipy.interpolate import CubicSpline
from hypothesis import strategies as st
from imv import ref, gens, fits, models as M, conv
from imv.harness import Component, require, close, Violation, Known
from .p04 import psf_image
from .p05 import regions, rstr, clip

METHODS = ["", "bicubic", "lanczos2", "lanczos3", "Bicubic", "Lanczos2", "Lanczos3"]


def lanczos(d, n):
    d = np.abs(d)
    with np.errstate(all="ignore"):
        v = n * np.sin(np.pi * d) * np.sin(np.pi * d / n) / (np.pi ** 2 * d * d)
    return np.where(d < 1e-6, 1.0, np.where(d > n, 0.0, v))


class Interp:
    """Value of a PSF image at offsets (dx, dy) from its geometrical centre."""

    def __init__(self, psf, method):
        self.p = np.asarray(psf, float)
        self.nr, self.nc = self.p.shape
        self.xb, self.yb = (self.nc - 1) / 2.0, (self.nr - 1) / 2.0
        self.n = {"lanczos2": 2, "lanczos3": 3}.get(method.lower(), 0)
        if not self.n:
            # basis matrices: natural spline through unit vectors
            self.sx = CubicSpline(np.arange(self.nc), np.eye(self.nc), bc_type="natural")
            self.sy = CubicSpline(np.arange(self.nr), np.eye(self.nr), bc_type="natural")

    def __call__(self, dx, dy):
        dx, dy = np.asarray(dx, float).ravel(), np.asarray(dy, float).ravel()
        if self.n:
            wx = lanczos(dx[:, None] + self.xb - np.arange(self.nc), self.n)
            wy = lanczos(dy[:, None] + self.yb - np.arange(self.nr), self.n)
        else:
            wx, wy = self.sx(np.clip(dx + self.xb, 0, self.nc - 1)), self.sy(np.clip(dy + self.yb, 0, self.nr - 1))
        v = np.einsum("kr,rc,kc->k", wy, self.p, wx)
        out = (np.abs(dx) > self.xb) | (np.abs(dy) > self.yb)
        edge = (np.abs(np.abs(dx) - self.xb) < 1e-9) | (np.abs(np.abs(dy) - self.yb) < 1e-9)
        return np.where(out, 0.0, v), edge


def source_offsets(f, x0, y0, X, Y):
    dx, dy = X - x0, Y - y0
    if f[0] == "PointSourceRot":
        a = math.radians(f[1][0] + 90.0)
        return dx * math.cos(a) + dy * math.sin(a), -dx * math.sin(a) + dy * math.cos(a), f[1][1]
    return dx, dy, f[1][0]


def is_point(f):
    return f[0] in ref.POINT


def method(f):
    return (f[2].get("method") if len(f) > 2 and f[2] else None) or "bicubic"


def points(sets, k, X, Y, scale=1.0, force=None):
    """Sum of the point sources at positions X, Y for the PSF k; second array marks positions on the footprint's edge."""
    tot = np.zeros(X.size)
    edge = np.zeros(X.size, bool)
    amp = 0.0
    for x0, y0, fs in sets:
        for f in fs:
            if is_point(f):
                dx, dy, I = source_offsets(f, x0, y0, X.ravel(), Y.ravel())
                v, e = Interp(k, force or method(f))(scale * dx, scale * dy)
                tot += I * v
                if f[0] == "PointSourceRot" or scale != 1.0 or force:
                    edge |= e
                amp += abs(I)
    return tot.reshape(X.shape), edge.reshape(X.shape), amp


def extended(sets):
    return [[x, y, [f for f in fs if not is_point(f)]] for x, y, fs in sets if any(not is_point(f) for f in fs)]


@st.composite
def pointf(draw):
    n = draw(st.sampled_from(["PointSource", "PointSource", "PointSourceRot"]))
    m = draw(st.sampled_from(METHODS))
    p = draw(gens.func_params(n))
    f = [n, p]
    if m:
        f.append({"method": m})
    return f


@st.composite
def case(draw, maxn=18, osamp=False):
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    sets = []
    for _ in range(draw(st.integers(1, 3))):
        x0 = draw(st.one_of(gens.fl(-5, nx + 6), st.integers(-2, nx + 3).map(float), st.integers(0, nx + 1).map(lambda v: v + 0.5)))
        y0 = draw(st.one_of(gens.fl(-5, ny + 6), st.integers(-2, ny + 3).map(float), st.integers(0, ny + 1).map(lambda v: v + 0.5)))
        fs = draw(st.lists(st.one_of(pointf(), pointf(), gens.function(gens.FAST)), min_size=1, max_size=3))
        sets.append([x0, y0, fs])
    if not any(is_point(f) for s in sets for f in s[2]):
        sets[-1][2].append(draw(pointf()))
    psf = draw(psf_image(11, 11, 4))
    if draw(st.booleans()):      # odd sizes: the central pixel is the geometrical centre
        psf = [r[:len(r) - (len(r) % 2 == 0)] for r in psf]
        psf = psf[:len(psf) - (len(psf) % 2 == 0)]
        if len(psf) < 4 or len(psf[0]) < 4:
            psf = draw(psf_image(5, 5, 5))
    c = dict(nx=nx, ny=ny, sets=sets, psf=fix(psf), norm=draw(st.booleans()), sub=draw(st.booleans()), th=draw(st.sampled_from([1, 2, 4, 8])))
    if osamp:
        c["os"] = []
        for r in draw(regions(nx, ny, draw(st.sampled_from([1, 1, 2])))):
            c["os"].append(dict(reg=r, psf=fix(draw(psf_image(11, 11, 4))), scale=draw(st.sampled_from([1, 2, 3, 4])), norm=draw(st.booleans())))
    return c


def fix(psf):
    """A PSF whose sum is well away from zero (signed ones may cancel)."""
    a = np.array(psf)
    if abs(a.sum()) <= 0.05 * np.abs(a).sum():
        a[a.shape[0] // 2, a.shape[1] // 2] += np.abs(a).sum() or 1.0
    if np.minimum.reduce(a.shape) < 4:
        a = np.pad(a, ((0, max(0, 5 - a.shape[0])), (0, max(0, 5 - a.shape[1]))))
    return a.tolist()


def ext_image(w, c, sets, psf, norm, box, scale=1):
    """Extended functions only, convolved; positions of box=(x1,x2,y1,y2) on a grid finer by scale."""
    x1, x2, y1, y2 = box
    s = scale
    pr, pc = psf.shape
    nfx, nfy = s * (x2 - x1 + 1) + 2 * pc, s * (y2 - y1 + 1) + 2 * pr
    fr = 1.0 / s
    off = 0.5 * fr - 0.5
    xs = np.array([x1 + off + (j - pc) * fr for j in range(nfx)])
    ys = np.array([y1 + off + (i - pr) * fr for i in range(nfy)])
    X, Y = np.meshgrid(xs, ys)
    tot = np.zeros(X.shape)
    for x0, y0, fs in extended(sets):
        for f in fs:
            tot += w.call("fval", int(c["sub"]), 1.0, 0.0, 1.0, f[0].encode(), f[1], [x0, y0], np.stack([X.ravel(), Y.ravel()], 1))[3].reshape(X.shape)
    k = psf / psf.sum() if norm else psf
    cv = conv.direct(tot, k)[pr:nfy - pr, pc:nfx - pc]
    return cv, X[pr:nfy - pr, pc:nfx - pc], Y[pr:nfy - pr, pc:nfx - pc], 1e-12 * np.abs(k).sum() * np.abs(tot).max() * 30 + 1e-250


def main_image(w, c, sets):
    psf = np.array(c["psf"])
    k = psf / psf.sum() if c["norm"] else psf
    e, X, Y, tol = ext_image(w, c, sets, psf, c["norm"], (1, c["nx"], 1, c["ny"]))
    p, edge, amp = points(sets, k, X, Y)
    return e + p, tol + 1e-10 * amp * np.abs(k).max(), edge


def check_image(got, want, tol, edge, what):
    g = np.where(edge, want, got)
    close(g, want, 0, tol, what)


def run_model(ctx, c):
    w = ctx.worker()
    nx, ny, sets = c["nx"], c["ny"], c["sets"]
    p = M.setup(w, 1, nx, ny, gens.config(sets), psf=c["psf"], norm=c["norm"], subsample=c["sub"], threads=c["th"], chunk=2)
    what = "%dx%d model %s, PSF %s norm=%s, %d threads" % (nx, ny, sets, np.array(c["psf"]).shape, c["norm"], c["th"])
    want, tol, edge = main_image(w, c, sets)
    img = M.image(w, 1, p, nx, ny)
    check_image(img, want, tol, edge, what)
    j = 0
    for x, y, fs in sets:
        for f in fs:
            if (j + nx) % 2 == 0:
                sw, stol, sedge = main_image(w, c, [[x, y, [f]]])
                check_image(M.single(w, 1, p, j, nx, ny), sw, stol, sedge, "function %d of %s" % (j, what))
            j += 1
    check_image(M.image(w, 1, p, nx, ny), want, tol, edge, "second evaluation of " + what)
    M.free(w, 1)
    pts = [f for s in sets for f in s[2] if is_point(f)]
    ctx.note(nontrivial=float(np.abs(want).max()) > 1e-200, tag="methods=%d" % len(set(method(f).lower() for f in pts)))
    ctx.note(tag="oblong" if np.array(c["psf"]).shape[0] != np.array(c["psf"]).shape[1] else "square")


@st.composite
def exact_case(draw):
    nc, nr = draw(st.sampled_from([5, 7, 9, 11])), draw(st.sampled_from([5, 7, 9, 11]))
    s = draw(st.integers(0, 2**31))
    r = np.random.default_rng(s)
    psf = np.array([[float("%.9g" % v) for v in row] for row in r.random((nr, nc))])
    nx, ny = nc + draw(st.integers(0, 6)), nr + draw(st.integers(0, 6))
    return dict(nx=nx, ny=ny, psf=psf.tolist(), x0=draw(st.integers(1 + nc // 2, nx - nc // 2)), y0=draw(st.integers(1 + nr // 2, ny - nr // 2)),
                m=draw(st.sampled_from(METHODS)), I=draw(gens.KIND["I"]), norm=draw(st.booleans()), rot=draw(st.sampled_from([None, None, 0, 90, 180, 270, -90])), th=draw(st.sampled_from([1, 4])))


def run_exact(ctx, c):
    """At a whole-pixel position the (odd-sized) PSF itself appears, times the flux; multiples of 90 degrees rotate it."""
    w = ctx.worker()
    f = ["PointSource", [c["I"]]] if c["rot"] is None else ["PointSourceRot", [float(c["rot"]), c["I"]]]
    if c["m"]:
        f.append({"method": c["m"]})
    k = np.array(c["psf"])
    nx, ny, x0, y0 = c["nx"], c["ny"], c["x0"], c["y0"]
    if c["rot"] is not None:
        m = max(k.shape) + 2
        nx, ny, x0, y0 = nx + 2 * m, ny + 2 * m, x0 + m, y0 + m
    p = M.setup(w, 1, nx, ny, gens.config([[float(x0), float(y0), [f]]]), psf=k, norm=c["norm"], threads=c["th"])
    img = M.image(w, 1, p, nx, ny)
    M.free(w, 1)
    if c["norm"]:
        k = k / k.sum()
    if c["rot"] is not None:
        # position angle = direction of the PSF image's x axis, counter-clockwise from +y; rows increase upwards
        turns = int((c["rot"] + 90) // 90) % 4
        k = k[::-1]
        k = np.rot90(k, turns)[::-1]
    want = np.zeros((ny, nx))
    hr, hc = k.shape[0] // 2, k.shape[1] // 2
    want[y0 - 1 - hr:y0 + hr, x0 - 1 - hc:x0 + hc] = c["I"] * k
    got = img
    if c["rot"] is not None:     # pixels on the very edge of the footprint are decided by the rounding of the rotation
        inner = np.zeros((ny, nx), bool)
        inner[y0 - hr:y0 + hr - 1, x0 - hc:x0 + hc - 1] = True
        outer = np.ones((ny, nx), bool)
        outer[y0 - 1 - hr:y0 + hr, x0 - 1 - hc:x0 + hc] = False
        got = np.where(inner | outer, img, want)
    close(got, want, 0, 1e-11 * c["I"] * k.max(), "point source %s of a %s PSF at whole pixel (%d,%d)" % (f, k.shape, x0, y0))
    ctx.note(nontrivial=True, tag="rot" if c["rot"] is not None else "plain")
    ctx.note(tag="oblong" if k.shape[0] != k.shape[1] else "square")


def run_osamp(ctx, c):
    w = ctx.worker()
    nx, ny, sets = c["nx"], c["ny"], c["sets"]
    os_ = [dict(psf=o["psf"], scale=o["scale"], norm=o["norm"], region=rstr(o["reg"], [0, 0])) for o in c["os"]]
    p = M.setup(w, 1, nx, ny, gens.config(sets), psf=c["psf"], norm=c["norm"], subsample=c["sub"], threads=c["th"], osamp=os_)
    what = "%dx%d model %s, PSF %s, oversampled regions %s" % (nx, ny, sets, np.array(c["psf"]).shape, [(o["reg"], o["scale"], np.array(o["psf"]).shape, o["norm"]) for o in c["os"]])
    nf = sum(len(s[2]) for s in sets)
    k1 = (nx + 3 * ny) % nf
    imgs = [(M.image(w, 1, p, nx, ny), sets, "image of "), (M.image(w, 1, p, nx, ny), sets, "second image of ")]
    one, j = None, 0
    for x, y, fs in sets:
        for f in fs:
            if j == k1:
                one = [[x, y, [f]]]
            j += 1
    imgs.append((M.single(w, 1, p, k1, nx, ny), one, "function %d of " % k1))
    imgs.append((M.image(w, 1, p, nx, ny), sets, "image after single-function image of "))
    M.free(w, 1)
    known = False
    cache = {}
    for got, ss, lab in imgs:
        key = id(ss)
        if key not in cache:
            want, tol, edge = main_image(w, c, ss)
            regs = []
            for o in c["os"]:
                box = clip(o["reg"], nx, ny)
                raw = np.array(o["psf"])
                kn = raw / raw.sum() if o["norm"] else raw
                s = o["scale"]
                e, X, Y, etol = ext_image(w, c, ss, raw, o["norm"], box, s)
                shp = (box[3] - box[2] + 1, s, box[1] - box[0] + 1, s)
                good, e1, amp = points(ss, kn, X, Y, float(s))
                coded, e2, _ = points(ss, raw, X, Y, float(s), force="bicubic")
                t = etol + 1e-10 * amp * max(np.abs(raw).max(), np.abs(kn).max() * s * s)
                regs.append((box, (e + good * s * s).reshape(shp).mean(axis=(1, 3)), (e + coded).reshape(shp).mean(axis=(1, 3)), t, (e1 | e2).reshape(shp).any(axis=(1, 3)),
                             amp))
            cache[key] = (want, tol, edge, regs)
        want, tol, edge, regs = cache[key]
        ok = (np.abs(got - want) <= tol) | edge
        cover = np.zeros((ny, nx), bool)
        kn_ok = np.zeros((ny, nx), bool)
        for box, good, coded, t, e, amp in regs:
            sl = (slice(box[2] - 1, box[3]), slice(box[0] - 1, box[1]))
            first = ~cover[sl]
            g_ok = (np.abs(got[sl] - good) <= t) | e
            c_ok = (np.abs(got[sl] - coded) <= t) | e
            ok[sl] = np.where(first, g_ok, ok[sl] | g_ok)
            kn_ok[sl] |= c_ok
            cover[sl] = True
        bad = ~ok & ~(cover & kn_ok)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation("%s%s: %d pixels differ, first (x=%d,y=%d) %s the regions: got %.12g" % (lab, what, bad.sum(), x + 1, y + 1, "inside" if cover[y, x] else "outside (expected %.12g)" % want[y, x], got[y, x]))
        known |= bool((~ok).any())
    if known:
        raise Known("P06-oversampled-point-source", what)
    ctx.note(nontrivial=True, tag="correct")


def run_cli(ctx, c):
    d = ctx.newdir()
    nx, ny = c["nx"], c["ny"]
    fits.write(os.path.join(d, "psf.fits"), np.array(c["psf"]))
    open(os.path.join(d, "c.dat"), "w").write(gens.config(c["sets"], header=["NCOLS %d" % nx, "NROWS %d" % ny]))
    a = ["c.dat", "--psf", "psf.fits", "-o", "o.fits", "--max-threads", str(c["th"]), "--output-functions", "f"]
    if not c["norm"]:
        a.append("--no-normalize")
    if not c["sub"]:
        a.append("--no-subsampling")
    r = ctx.run("makeimage", a, d)
    require(r.rc == 0, "makeimage failed: %s", r.tail())
    img = fits.read(os.path.join(d, "o.fits"))[0]
    want, tol, edge = main_image(ctx.worker(), c, c["sets"])
    g = np.where(edge, want, img)
    close(g, want, 3e-7, tol + 1e-37, "makeimage output for %s" % (c["sets"],))
    j = 0
    for x, y, fs in c["sets"]:
        for f in fs:
            j += 1
            im = fits.read(os.path.join(d, "f%d_%s.fits" % (j, f[0])))[0]
            sw, stol, sedge = main_image(ctx.worker(), c, [[x, y, [f]]])
            close(np.where(sedge, sw, im), sw, 3e-7, stol + 1e-37, "makeimage --output-functions image %d of %s" % (j, c["sets"]))
    ctx.note(nontrivial=True)


def run_reject(ctx, c):
    """No PSF, or one too small to interpolate: reported, nothing written."""
    d = ctx.newdir()
    open(os.path.join(d, "c.dat"), "w").write(gens.config(c["sets"], header=["NCOLS %d" % c["nx"], "NROWS %d" % c["ny"]]))
    a = ["c.dat", "-o", "o.fits"]
    if c["shape"]:
        fits.write(os.path.join(d, "psf.fits"), np.ones(c["shape"]))
        a += ["--psf", "psf.fits"]
    if c["os"]:
        fits.write(os.path.join(d, "os.fits"), np.ones(c["os"]))
        a += ["--overpsf", "os.fits", "--overpsf_scale", "2", "--overpsf_region", "1:2,1:2"]
    r = ctx.run("makeimage", a, d)
    require(r.rc > 0 and not r.crashed and r.err.strip(), "a point source without a usable PSF must be reported: %s", r.tail())
    require(not os.path.exists(os.path.join(d, "o.fits")), "an image was written although the PSF cannot be used")
    ctx.note(nontrivial=True)


@st.composite
def reject_case(draw):
    c = draw(case(maxn=6))
    small = st.tuples(st.integers(1, 3), st.integers(1, 9)).flatmap(lambda t: st.sampled_from([[t[0], t[1]], [t[1], t[0]]]))
    kind = draw(st.sampled_from(["none", "small", "osmall"]))
    c["nx"], c["ny"] = max(2, c["nx"]), max(2, c["ny"])
    c["shape"] = None if kind == "none" else draw(small) if kind == "small" else [5, 5]
    c["os"] = draw(small) if kind == "osmall" else None
    del c["psf"]
    return c


CHECK = dict(
    property="P06", needs={"opt": (("makeimage",), True)},
    rule="a case is an image up to 18x18, 1-3 function sets with point sources (plain and rotatable, every interpolation method and spelling, mixed) and extended functions, PSF 4..11 x 4..11, sub-pixel and whole-pixel positions inside and outside the image; non-trivial when the expected image is not zero",
    assumptions=["the PSF's centre for a point source is its geometrical centre ((n-1)/2)", "pixels lying on the edge of a rotated or oversampled footprint to within 1e-9 may be in or out",
                 "bicubic = tensor-product natural cubic spline (what gsl_interp2d_bicubic computes)", "the rotatable variant's position angle is the direction of the PSF image's x axis, counter-clockwise from +y"],
    components=[
        Component("model", case(), run_model, 2500, 80000),
        Component("exact", exact_case(), run_exact, 2500, 60000),
        Component("oversampled", case(12, True), run_osamp, 1200, 40000),
        Component("makeimage", case(), run_cli, 300, 6000),
        Component("reject", reject_case(), run_reject, 150, 1500),
    ])
