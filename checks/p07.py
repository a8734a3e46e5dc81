"""P07: fit statistics equal their definitions from data, model and noise."""
import math, os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, models as M, statref as S
from imv.harness import Component, require, close, Violation, Skip
from checks.p04 import psf_image

FUNCS = ["Gaussian", "Exponential", "FlatSky", "Sersic", "Moffat", "GaussianRing", "TiltedSkyPlane", "EdgeOnDisk"]
KINDS = {"S": gens.fl(-2, 300, (0, 1, 10, 100)), "I": gens.logfl(0.05, 3e3, (1, 100)), "slope": gens.fl(-0.5, 0.5, (0,)), "R": gens.logfl(0.7, 10, (1, 3))}
STATS = ["data", "model", "sigma", "var", "weight", "cash", "pmlr"]
ERRT = {"sigma": 100, "var": 110, "weight": 120}


@st.composite
def chars(draw):
    return [draw(gens.logfl(0.05, 50, (1, 1, 2, 4.5))), draw(st.one_of(st.sampled_from([0.0, 0.0, 5.0]), gens.fl(0, 20))), draw(gens.logfl(0.5, 1000, (1, 1, 60))),
            draw(st.sampled_from([1, 1, 2, 3, 10])), draw(st.one_of(st.sampled_from([0.0, 10.0, 100.0]), gens.fl(0, 500)))]


@st.composite
def case(draw, maxn=9, funcs=FUNCS, kinds=KINDS):
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    kind = draw(st.sampled_from(STATS))
    sets = draw(gens.model(nx, ny, names=funcs, max_sets=2, max_funcs=2, margin=2, kinds=kinds))
    f2 = draw(gens.logfl(0.3, 3))
    psf = draw(st.one_of(st.none(), st.none(), psf_image(7, 7)))
    return dict(nx=nx, ny=ny, kind=kind, sets=sets, f2=f2, psf=psf, ch=draw(chars()), chset=draw(st.booleans()), seed=draw(st.integers(0, 2**31)),
                dkind=draw(st.sampled_from(["near", "near", "far", "counts", "zeros", "neg"])), mask=draw(st.sampled_from(["none", "some", "some", "most"])),
                mfmt=draw(st.sampled_from([10, 20])), th=draw(st.sampled_from([1, 1, 3])), sub=draw(st.booleans()))


def build(c, model):
    """Data, good-pixel map, stored mask, error image for a case, given the model image."""
    r = np.random.default_rng(c["seed"])
    nx, ny = c["nx"], c["ny"]
    gain, rn, texp, nc, sky = c["ch"] if c["chset"] else [1.0, 0.0, 1.0, 1, 0.0]
    scale = max(1.0, float(np.abs(model).max()))
    if c["dkind"] == "near":
        data = model + r.normal(0, 0.03, (ny, nx)) * (np.abs(model) + 1)
    elif c["dkind"] == "far":
        data = r.uniform(0, 3, (ny, nx)) * scale
    elif c["dkind"] == "counts":
        data = r.poisson(np.clip(model, 0, 1e6)).astype(float)
    elif c["dkind"] == "zeros":
        data = np.where(r.random((ny, nx)) < 0.5, 0.0, np.abs(model) * r.uniform(0.5, 1.5, (ny, nx)))
    else:
        data = model + r.normal(0, 0.5, (ny, nx)) * scale
    if c["dkind"] != "neg" and c["kind"] == "pmlr":
        data = np.maximum(data, -sky)
    data = np.array([[float("%.8g" % v) for v in row] for row in data])
    p = {"none": 0.0, "some": 0.25, "most": 0.8}[c["mask"]]
    bad = r.random((ny, nx)) < p
    mask = None
    if c["mask"] != "none":
        if c["mfmt"] == 10:
            mask = np.where(bad, r.choice([1.0, 2.0, 0.5, 100.0], (ny, nx)), r.choice([0.0, 0.0, -1.0], (ny, nx)))
        else:
            mask = np.where(bad, r.choice([0.0, 0.0, -3.0], (ny, nx)), r.choice([1.0, 1.0, 7.0], (ny, nx)))
    err = None
    if c["kind"] in ERRT:
        sig = r.uniform(0.2, 5, (ny, nx)) * np.sqrt(scale)
        err = {"sigma": sig, "var": sig ** 2, "weight": 1 / sig ** 2}[c["kind"]]
        err = np.array([[float("%.8g" % v) for v in row] for row in err])
        if c["kind"] == "weight" and c["seed"] % 3 == 0:
            err[r.random((ny, nx)) < 0.15] = 0.0        # weight zero: the pixel counts but contributes nothing
    return data, ~bad, mask, err


def scaled(p, sets, f2):
    """A second parameter vector: intensities multiplied by f2 (first parameter after geometry kept valid)."""
    q = []
    k = 0
    for x0, y0, fs in sets:
        q += [x0 + 0.3, y0 - 0.2]
        for f in fs:
            from imv import ref
            spec = ref.SPEC.get(f[0])
            q += [v * f2 if kk in ("I", "S") else v for v, (_, kk) in zip(f[1], spec)]
    return q


def in_domain(kind, data, model, ch, good):
    if kind in ("data", "model"):
        s2 = S.noise2(data if kind == "data" else model, ch, kind == "data")
        return bool(good.any()) and bool((s2[good] > 1e-12 * (1 + np.abs(model[good]))).all())
    return bool(good.any())


def run(ctx, c):
    w = ctx.worker()
    nx, ny, kind = c["nx"], c["ny"], c["kind"]
    cfg = gens.config(c["sets"])
    ch = c["ch"] if c["chset"] else [1.0, 0.0, 1.0, 1, 0.0]
    p1 = M.setup(w, 1, nx, ny, cfg, psf=c["psf"], subsample=c["sub"])
    p2 = scaled(p1, c["sets"], c["f2"])
    m1, m2 = M.image(w, 1, p1, nx, ny), M.image(w, 1, p2, nx, ny)
    M.free(w, 1)
    data, good, mask, err = build(c, m1)
    if not good.any():
        raise Skip("all masked")
    if not in_domain(kind, data, m1, ch, good) or (kind == "model" and not in_domain(kind, data, m2, ch, good)):
        raise Skip("non-positive noise")
    stat = kind if kind in ("cash", "pmlr", "model") else None
    p = M.setup(w, 2, nx, ny, cfg, psf=c["psf"], subsample=c["sub"], data=data, chars=c["ch"] if c["chset"] else None, mask=mask, mfmt=c["mfmt"], err=err,
                errtype=ERRT.get(kind, 100), stat=stat, threads=c["th"])
    nv, nd = w.call("mnvalid", 2)
    require(nv == int(good.sum()), "number of valid pixels %d, expected %d", nv, int(good.sum()))
    order = [0, 1, 0] if c["seed"] % 2 else [1, 0, 1]
    for k in order:
        prm, m = ((p1, m1), (p2, m2))[k]
        dm = 1e-12 * float(np.abs(m).max()) * 30 if c["psf"] is not None else 0.0
        want, tol = S.stat(kind, data, m, ch, err, good, dm)
        got = w.call("mstatval", 2, prm)[0]
        require(abs(got - want) <= tol, "%s statistic of a %dx%d image: %.15g, definition gives %.15g (tolerance %.2g; gain etc. %s, mask %s, data %s)", kind, nx, ny, got, want, tol, ch, c["mask"], c["dkind"])
        if kind != "cash":
            t, mag = S.terms(kind, data, m, ch, err)
            dev = w.call("mdev", 2, nx * ny, prm)[0].reshape(ny, nx)
            wt = np.where(good, np.abs(t), 0.0)
            tt = 1e-10 * np.where(good, mag, 0) + 1e-300
            if dm:
                for sg in (1, -1):
                    u, _ = S.terms(kind, data, m + sg * dm, ch, err)
                    tt = tt + np.where(good, np.abs(u - t), 0)
            close(dev ** 2, wt, 0, tt, "squared %s deviates" % kind)
            if (np.where(good, t, 0) >= 0).all():
                require(abs(math.fsum((dev ** 2).ravel()) - want) <= float(tt.sum()) + tol, "sum of squared %s deviates %.15g differs from the statistic %.15g", kind, math.fsum((dev ** 2).ravel()), want)
    if kind not in ("cash", "pmlr"):
        wimg = w.call("mweights", 2)[0].reshape(ny, nx)
        m = (m1, m2)[order[-1]]
        with np.errstate(divide="ignore", invalid="ignore"):
            s2 = S.sigma2(kind, data, m, ch, err)
            ww = err if kind == "weight" else 1 / s2
        ww = np.where(good, ww, 0.0)
        close(wimg, ww, 1e-9 if c["psf"] is None else 1e-6, 1e-300, "weight image (1/sigma^2)")
    M.free(w, 2)
    ctx.note(nontrivial=int(good.sum()) >= 2 and want != 0, tag=kind)
    ctx.note(tag="mask:" + c["mask"])
    ctx.note(tag="data:" + c["dkind"])
    if (data[good] + ch[4] <= 0).any():
        ctx.note(tag="nonpositive data")
    if (m1[good] + ch[4] <= 0).any():
        ctx.note(tag="nonpositive model")


# ---- program level -------------------------------------------------------------------------------------------------
def run_cli(ctx, c):
    d = ctx.newdir()
    nx, ny, kind = c["nx"], c["ny"], c["kind"]
    w = ctx.worker()
    ch = c["ch"] if c["chset"] else [1.0, 0.0, 1.0, 1, 0.0]
    p1 = M.setup(w, 1, nx, ny, gens.config(c["sets"]), psf=c["psf"], subsample=c["sub"])
    m = M.image(w, 1, p1, nx, ny)
    M.free(w, 1)
    data, good, mask, err = build(c, m)
    if not in_domain(kind, data, m, ch, good):
        raise Skip("non-positive noise")
    npar = len(p1)
    rng = np.random.default_rng(c["seed"] + 1)
    fixed = [bool(v) for v in rng.random(npar) < 0.3]
    if all(fixed):
        fixed[0] = False
    nfree = npar - sum(fixed)
    nv = int(good.sum())
    fits.write(os.path.join(d, "data.fits"), data)
    opt, head = [], []
    names = [("GAIN", "--gain"), ("READNOISE", "--readnoise"), ("EXPTIME", "--exptime"), ("NCOMBINED", "--ncombined"), ("ORIGINAL_SKY", "--sky")]
    if c["chset"]:
        for (key, o), v in zip(names, c["ch"]):
            how = rng.integers(3)
            t = repr(float(v)) if key != "NCOMBINED" else str(int(v))
            if how == 0:
                head.append("%s  %s" % (key, t))
            elif how == 1:
                opt += [o, t]
            else:
                head.append("%s  %s" % (key, "7" if key == "NCOMBINED" else "7.5"))
                opt += ["%s=%s" % (o, t)]
    if mask is not None:
        fits.write(os.path.join(d, "mask.fits"), mask)
        opt += ["--mask", "mask.fits"] + (["--mask-zero-is-bad"] if c["mfmt"] == 20 else [])
    if err is not None:
        fits.write(os.path.join(d, "err.fits"), err)
        opt += ["--noise", "err.fits"] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[kind]
    opt += {"model": ["--model-errors"], "cash": ["--cashstat"], "pmlr": [["--poisson-mlr"], ["--mlr"]][int(rng.integers(2))]}.get(kind, [])
    if c["psf"] is not None:
        fits.write(os.path.join(d, "psf.fits"), np.array(c["psf"]))
        opt += ["--psf", "psf.fits"]
    if not c["sub"]:
        opt += ["--no-subsampling"]
    open(os.path.join(d, "c.dat"), "w").write(gens.config(c["sets"], limits=["fixed" if f else None for f in fixed], header=head))
    args = ["data.fits", "-c", "c.dat", "--fitstat-only", "--max-threads", str(c["th"])] + opt
    r = ctx.run("imfit", args, d)
    require(r.rc == 0, "imfit --fitstat-only failed (%s): %s", args, r.tail())
    label = {"cash": "CASH STATISTIC", "pmlr": "POISSON-MLR STATISTIC"}.get(kind, "CHI-SQUARE")
    g = re.findall(r"^\s*%s = (\S+)(?:\s+\((-?\d+) DOF\))?" % label, r.out, re.M)
    require(len(g) == 1, "no %s line in the output: %s", label, r.out[-700:])
    dm = 1e-12 * float(np.abs(m).max()) * 30 if c["psf"] is not None else 0.0
    want, tol = S.stat(kind, data, m, ch, err, good, dm)
    require(abs(float(g[0][0]) - want) <= tol + 1e-6, "%s printed by imfit %s, definition gives %.10f", label, g[0][0], want)
    if g[0][1]:
        require(int(g[0][1]) == nv - nfree, "DOF printed %s, expected %d", g[0][1], nv - nfree)
    a = re.search(r"^AIC = (\S+), BIC = (\S+)", r.out, re.M)
    require(a is not None, "no AIC line")
    if nv - nfree - 1 > 0:
        A, B = S.aic(want, nfree, nv), S.bic(want, nfree, nv)
        require(abs(float(a.group(1)) - A) <= tol + 2e-6 and abs(float(a.group(2)) - B) <= tol + 2e-6, "AIC, BIC printed %s %s, expected %.8f %.8f", a.group(1), a.group(2), A, B)
    mm = re.search(r"Reduced Chi\^2(?: equivalent)? = (\S+)", r.out)
    if mm and nv > nfree and kind != "cash":
        require(abs(float(mm.group(1)) - want / (nv - nfree)) <= (tol + 2e-6), "reduced chi^2 printed %s, expected %.8f", mm.group(1), want / (nv - nfree))
    ctx.note(nontrivial=nv >= 2, tag=kind)


CHECK = dict(
    property="P07", needs={"opt": (("imfit",), True)},
    rule="a case is a data image 1..9 x 1..9 (near the model, far from it, integer counts, zeros, negative), a model of 1-4 functions at two parameter vectors, a noise description (gain, read noise, exposure time, images combined, sky), a statistic, a mask in either convention and optionally a PSF; non-trivial when at least two pixels are unmasked and the statistic is not zero",
    assumptions=["the model image itself is taken from the code (checked by P01-P06)", "pixels with non-positive noise variance are outside the domain (the program rejects them for data errors)",
                 "log of a non-positive model value is 1e-25, as in the documentation of the code (LOG_SMALL_VALUE)"],
    components=[
        Component("statistic", case(), run, 6000, 250000),
        Component("fitstat_only", case(), run_cli, 700, 20000),
    ])
