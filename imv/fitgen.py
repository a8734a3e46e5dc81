"""Generated fitting problems for the programs: scene (data, mask, errors, PSF, section), start values, limits, options."""
import os, re
import numpy as np
from hypothesis import strategies as st
from . import gens, fits, ref, cfgref, models as M, statref as S
from .harness import require, Skip

FUNCS = ["Gaussian", "Exponential", "Sersic", "Moffat", "FlatSky", "FlatSky", "GaussianRing", "EdgeOnRing", "BrokenExponential", "TiltedSkyPlane"]
STATS = ["data", "data", "model", "sigma", "var", "weight", "cash", "pmlr"]
ERRT = {"sigma": 100, "var": 110, "weight": 120}
KINDS = {"S": gens.fl(1, 60), "I": gens.logfl(20, 3e3, (100,)), "R": gens.logfl(1.0, 6), "ell": gens.fl(0.05, 0.7), "PA": gens.fl(5, 170), "sersicn": gens.logfl(0.6, 5),
         "slope": gens.fl(-0.3, 0.3), "vertn": gens.logfl(1, 5), "beta": gens.logfl(1.5, 5), "alpha": gens.logfl(0.3, 5), "Rz": gens.logfl(1.0, 3)}
# hard bounds of each kind, so that a solver cannot wander where the function is undefined
HARD = {"ell": (0.0, 0.95), "ell8": (0, 0.8), "R": (0.3, 60.0), "R3": (1, 60), "Rz": (0.2, 30.0), "sersicn": (0.3, 10.0), "beta": (1.05, 12.0), "alpha": (0.05, 20.0), "vertn": (0.5, 50.0), "rb": (0.2, 30.0), "unit": (0, 2)}
LABELS = [None, None, "bulge", "outer disk", "the sky", "n_1"]
WORDS = {"data": "chi-squared (data-based errors)", "model": "chi-squared (model-based errors)", "sigma": "chi-squared (user-supplied errors)", "var": "chi-squared (user-supplied errors)",
         "weight": "chi-squared (user-supplied errors)", "cash": "Cash statistic", "pmlr": "Poisson-MLR statistic"}
TITLE = {"cash": "CASH STATISTIC", "pmlr": "POISSON-MLR STATISTIC"}


def kinds_of(sets):
    """Per parameter: 'x', 'y' or the kind of a function parameter."""
    out = []
    for _, _, fs in sets:
        out += ["x", "y"]
        for f in fs:
            out += [k for _, k in (ref.SPEC.get(f[0]) or ref.POINT[f[0]])]
    return out


@st.composite
def scene(draw, maxn=12, minn=4, stats=STATS, section=True, masks=("none", "some"), psf=True, funcs=FUNCS, max_sets=2, max_funcs=2, total=3, points=True, limits="mixed", fixed=0.25, chars=True):
    nx, ny = draw(st.integers(minn, maxn)), draw(st.integers(minn, maxn))
    usepsf = psf and draw(st.integers(0, 3)) == 0
    names = list(funcs) + (["PointSource"] * 3 if usepsf and points else [])
    sets = draw(gens.model(nx, ny, names=names, max_sets=max_sets, max_funcs=max_funcs, margin=-1.5, kinds=KINDS, total=total))
    for s in sets:
        for f in s[2]:
            if f[0] == "PointSource" and draw(st.integers(0, 2)) == 0:
                f.append({"method": draw(st.sampled_from(["bicubic", "lanczos2", "lanczos3"]))})
            else:
                f.append({})
    ks = kinds_of(sets)
    lim = []
    for k in ks:
        if draw(st.floats(0, 1)) < fixed:
            lim.append("fixed")
        elif limits == "all" or k in HARD:
            lim.append("lim")
        elif limits == "mixed" and draw(st.booleans()):
            lim.append("lim")
        else:
            lim.append("free")
    if all(l == "fixed" for l in lim):
        lim[-1] = "lim"
    nf = sum(len(s[2]) for s in sets)
    sec = None
    if section and draw(st.booleans()):
        sec = [draw(st.integers(0, 30)), draw(st.integers(0, 300)), draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    p = None
    if usepsf:
        pr, pc = draw(st.integers(5, 8)), draw(st.integers(5, 8))
        rr = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        yy, xx = np.mgrid[0:pr, 0:pc]
        p = np.exp(-((xx - (pc - 1) // 2) ** 2 + (yy - (pr - 1) // 2) ** 2) / (2 * rr.uniform(0.8, 1.6) ** 2)) * rr.uniform(0.8, 1.2, (pr, pc)) + 0.001
        p = [[float("%.5g" % v) for v in row] for row in p]
    return dict(nx=nx, ny=ny, sets=sets, lim=lim, labels=[draw(st.sampled_from(LABELS)) for _ in range(nf)], sec=sec, psf=p, kind=draw(st.sampled_from(list(stats))),
                mask=draw(st.sampled_from(list(masks))), mfmt=draw(st.sampled_from([10, 20])), ch=[draw(gens.logfl(0.5, 5, (1,))), draw(st.sampled_from([0.0, 2.0, 5.0])), 1.0, draw(st.sampled_from([1, 1, 3])), draw(st.sampled_from([5.0, 30.0, 100.0]))] if chars else [1.0, 0.0, 1.0, 1, 0.0],
                seed=draw(st.integers(0, 2 ** 31)), sub=draw(st.booleans()), noise=draw(st.sampled_from([1.0, 1.0, 0.2, 3.0])), start=draw(st.sampled_from([0.02, 0.1, 0.2])))


def library(w, mid, c, sets=None, **kw):
    return M.setup(w, mid, c["nx"], c["ny"], gens.config(sets or c["sets"]), psf=c["psf"], subsample=c["sub"], **kw)


class Problem:
    pass


def realise(w, c):
    """True model -> data, mask, errors (cut-out arrays), starting values and limits, in cut-out coordinates."""
    P = Problem()
    nx, ny = c["nx"], c["ny"]
    r = np.random.default_rng(c["seed"])
    truth = library(w, 90, c)
    img = M.image(w, 90, truth, nx, ny)
    M.free(w, 90)
    if not np.isfinite(img).all():
        raise Skip("non-finite model")
    gain, rn, texp, nc, sky = c["ch"]
    g = gain * texp * nc
    P.truth, P.model = np.array(truth), img
    lev = np.maximum(img, 0) + sky
    if c["kind"] in ("cash", "pmlr"):
        data = r.poisson(np.minimum(lev * g, 1e8)) / g - sky
    else:
        data = img + c["noise"] * r.normal(0, 1, img.shape) * np.sqrt(lev / g + 0.5)
    if c["kind"] in ("data", "model"):
        data = np.maximum(data, -sky * 0.9)
    P.data = np.array([[float("%.8g" % v) for v in row] for row in data])
    bad = r.random((ny, nx)) < (0.15 if c["mask"] == "some" else 0)
    P.good = ~bad
    P.mask = None
    if c["mask"] != "none":
        P.mask = np.where(bad, 1.0, 0.0) if c["mfmt"] == 10 else np.where(bad, 0.0, 1.0)
    P.err = None
    if c["kind"] in ERRT:
        sig = np.sqrt(lev / g + 0.5) * r.uniform(0.8, 1.25, img.shape)
        e = {"sigma": sig, "var": sig ** 2, "weight": 1 / sig ** 2}[c["kind"]]
        P.err = np.array([[float("%.8g" % v) for v in row] for row in e])
    ks = kinds_of(c["sets"])
    start, lims = [], []
    for v, k, l in zip(truth, ks, c["lim"]):
        u = r.uniform(-1, 1)
        if k in ("x", "y"):
            s = v + 2 * c["start"] * u
            wd = r.uniform(0.5, 3)
        elif k == "PA":
            s, wd = v + 60 * c["start"] * u, r.uniform(15, 60)
        elif k in ("slope",):
            s, wd = v + 0.2 * c["start"] * u, 0.5
        else:
            s, wd = v * (1 + c["start"] * u), abs(v) * r.uniform(0.3, 0.9) + 1e-3
        if l == "fixed" and c["seed"] % 3:
            s = v
        s = float("%.6g" % s)
        if k in HARD:
            s = min(max(s, HARD[k][0] + 1e-3), HARD[k][1] - 1e-3)
        if l == "lim":
            lo, hi = s - wd, s + wd
            if k in HARD:
                lo, hi = max(lo, HARD[k][0]), min(hi, HARD[k][1])
            elif k in ("I", "S"):
                lo = max(lo, 0.0)
            lims.append((min(float("%.6g" % lo), s), max(float("%.6g" % hi), s)))
        else:
            lims.append("fixed" if l == "fixed" else None)
        start.append(s)
    P.start, P.lims, P.kinds = start, lims, ks
    P.off = (c["sec"][0], c["sec"][1]) if c["sec"] else (0, 0)
    P.nfree = sum(l != "fixed" for l in lims)
    P.free = [l != "fixed" for l in lims]
    return P


def with_values(sets, vals):
    """sets with another flat parameter vector."""
    it = iter(float(v) for v in vals)
    out = []
    for x0, y0, fs in sets:
        a, b = next(it), next(it)
        out.append([a, b, [[f[0], [next(it) for _ in f[1]], f[2] if len(f) > 2 else {}] for f in fs]])
    return out


def shift(vals, kinds, off, sgn=1):
    return [v + sgn * (off[0] if k == "x" else off[1] if k == "y" else 0) for v, k in zip(vals, kinds)]


def full_limits(P):
    return [l if l in (None, "fixed") else ((l[0] + P.off[0], l[1] + P.off[0]) if k == "x" else (l[0] + P.off[1], l[1] + P.off[1]) if k == "y" else l) for l, k in zip(P.lims, P.kinds)]


def start_config(c, P, header=()):
    return gens.config(with_values(c["sets"], shift(P.start, P.kinds, P.off)), limits=full_limits(P), header=header, labels=c["labels"])


def embed(a, sec, rng, junk):
    if sec is None:
        return a
    ox, oy, px, py = sec
    ny, nx = a.shape
    big = rng.uniform(1, 5, (ny + oy + py, nx + ox + px)) * junk
    big[oy:oy + ny, ox:ox + nx] = a
    return big


def sect(c):
    if c["sec"] is None:
        return ""
    ox, oy = c["sec"][:2]
    return "[%d:%d,%d:%d]" % (ox + 1, ox + c["nx"], oy + 1, oy + c["ny"])


def files(d, c, P):
    """Writes data, mask, noise, PSF; returns the data argument and the options describing them."""
    rng = np.random.default_rng(c["seed"] + 5)
    fits.write(os.path.join(d, "data.fits"), embed(P.data, c["sec"], rng, 1000.0))
    s = sect(c)
    a = []
    if P.mask is not None:
        fits.write(os.path.join(d, "mask.fits"), embed(P.mask, c["sec"], rng, 1.0))
        a += ["--mask", "mask.fits" + s] + (["--mask-zero-is-bad"] if c["mfmt"] == 20 else [])
    if P.err is not None:
        fits.write(os.path.join(d, "err.fits"), embed(P.err, c["sec"], rng, 1.0))
        a += ["--noise", "err.fits" + s] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[c["kind"]]
    gain, rn, texp, nc, sky = c["ch"]
    a += ["--gain", repr(gain), "--readnoise", repr(rn), "--ncombined", str(nc), "--sky", repr(sky)]
    a += {"model": ["--model-errors"], "cash": ["--cashstat"], "pmlr": ["--poisson-mlr"]}.get(c["kind"], [])
    if c["psf"] is not None:
        fits.write(os.path.join(d, "psf.fits"), np.array(c["psf"]))
        a += ["--psf", "psf.fits"]
    if not c["sub"]:
        a.append("--no-subsampling")
    return "data.fits" + s, a


def in_domain(c, P, img):
    """Noise variances of unmasked pixels are positive."""
    if c["kind"] in ("data", "model"):
        s2 = S.noise2(P.data if c["kind"] == "data" else img, c["ch"], c["kind"] == "data")
        return bool((s2[P.good] > 1e-9 * (1 + np.abs(img[P.good]))).all())
    return True


def stat_of(w, mid, c, P, vals):
    """Library statistic at a parameter vector in cut-out coordinates (model mid from library(data=...))."""
    return w.call("mstatval", mid, list(vals))[0]


def fit_library(w, mid, c, P, sets=None):
    return library(w, mid, c, sets=sets, data=P.data, chars=c["ch"], mask=P.mask, mfmt=c["mfmt"], err=P.err, errtype=ERRT.get(c["kind"], 100), stat=c["kind"] if c["kind"] in ("cash", "pmlr", "model") else None)


def half_ulp(v, kind):
    """Half a unit of the last printed digit."""
    if kind in ("x", "y"):
        return 0.51e-4
    s = "%.5e" % v
    return 0.51 * 10.0 ** (int(s.split("e")[1]) - 5) if v else 0.0


def bounds(w, mid, c, P, vals, rng, n=10, images=False):
    """Largest change of the statistic (and of every model pixel) when every parameter is off by its printing precision."""
    s0 = stat_of(w, mid, c, P, vals)
    h = np.array([half_ulp(v, k) for v, k in zip(shift(vals, P.kinds, P.off), P.kinds)])
    h = np.array([x if f else (x if k in "xy" else 0.51 * 10.0 ** -5 * abs(v)) for x, f, k, v in zip(h, P.free, P.kinds, vals)])
    ds, di = 0.0, 0.0
    i0 = M.image(w, mid, list(vals), c["nx"], c["ny"]) if images else None
    for k in range(n):
        q = np.array(vals) + h * (rng.choice([-1.0, 1.0], len(h)) if k < n // 2 else rng.uniform(-1, 1, len(h)))
        ds = max(ds, abs(stat_of(w, mid, c, P, q) - s0))
        if images:
            di = np.maximum(di, np.abs(M.image(w, mid, list(q), c["nx"], c["ny"]) - i0))
    return s0, ds, i0, di


BLOCK = re.compile(r"^AIC = \S+, BIC = \S+\n(.*?)(?=^Saving |^\nNow doing|\Z)", re.S | re.M)


def printed(out, c):
    """From imfit's standard output: statistic, AIC, BIC and the printed model (text)."""
    t = TITLE.get(c["kind"], "CHI-SQUARE")
    m = re.findall(r"^\s*%s = (\S+)(?:\s+\((-?\d+) DOF\))?" % t, out, re.M)
    require(len(m) == 1, "no single %s line in the output:\n%s", t, out[-1500:])
    a = re.findall(r"^AIC = (\S+), BIC = (\S+)", out, re.M)
    require(len(a) == 1, "no single AIC line in the output:\n%s", out[-1500:])
    b = BLOCK.search(out)
    require(b is not None, "no printed model in the output:\n%s", out[-1500:])
    red = re.findall(r"^Reduced Chi\^2(?: equivalent)? = (\S+)", out, re.M)
    return dict(stat=float(m[0][0]), dof=int(m[0][1]) if m[0][1] else None, aic=float(a[0][0]), bic=float(a[0][1]), body=b.group(1), red=float(red[0]) if red else None)


def body_lines(text):
    return [l.rstrip() for l in text.split("\n") if l.strip() and not l.startswith("#")]
