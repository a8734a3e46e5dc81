"""P08: masked and non-finite pixels never influence any result."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, models as M, statref as S
from imv.harness import Component, require, close, Violation, Skip
from checks.p04 import psf_image
from checks import p07

JUNK = [0.0, 1.0, -1.0, 1e30, -1e30, 1e300, -1e300, float("nan"), float("inf"), float("-inf"), 12345.678, -0.0, 1e-300]


@st.composite
def case(draw, maxn=8):
    c = draw(p07.case(maxn))
    c["mask"] = draw(st.sampled_from(["some", "some", "most"]))
    c["jseed"] = draw(st.integers(0, 2**31))
    c["how"] = draw(st.sampled_from(["junk", "junk", "nonfinite", "complement", "err", "maskval"]))
    return c


def variants(c, data, good, mask, err):
    """Two (data, mask, mfmt, err) inputs that must be indistinguishable."""
    r = np.random.default_rng(c["jseed"])
    ny, nx = data.shape
    bad = ~good
    std = np.where(bad, 1.0, 0.0)
    how = c["how"]
    junk = lambda: np.where(bad, r.choice(JUNK, (ny, nx)), data)
    ejunk = lambda: None if err is None else np.where(bad, r.choice(JUNK, (ny, nx)), err)
    a = (data, std, 10, err)
    if how == "nonfinite":          # part of the bad pixels are not masked but not finite
        sel = bad & (r.random((ny, nx)) < 0.6)
        d2 = np.where(sel, r.choice([np.nan, np.inf, -np.inf], (ny, nx)), data)
        m2 = np.where(sel, 0.0, std)
        b = (d2, None if (sel == bad).all() and c["jseed"] % 2 else m2, 10, err)
    elif how == "complement":
        b = (junk(), 1.0 - std, 20, ejunk())
    elif how == "err" and err is not None:
        sel = bad & (r.random((ny, nx)) < 0.6)      # bad noise values mask the pixel by themselves
        vals = {"sigma": [0.0, np.nan], "var": [0.0, -1.0, np.nan], "weight": [-1.0, np.nan, np.inf]}[c["kind"]]
        b = (np.where(sel, data, junk()), np.where(sel, 0.0, std), 10, np.where(sel, r.choice(vals, (ny, nx)), err))
    elif how == "maskval":
        if c["mfmt"] == 10:
            b = (junk(), np.where(bad, r.choice([1.0, 2.0, 1e-3, 1e30, np.nan, np.inf, -np.inf], (ny, nx)), r.choice([0.0, -0.0, -2.0], (ny, nx))), 10, ejunk())
        else:
            b = (junk(), np.where(bad, r.choice([0.0, -1.0, 0.5, np.nan, np.inf, -np.inf], (ny, nx)), r.choice([1.0, 2.0, 1e30], (ny, nx))), 20, ejunk())
    else:
        b = (junk(), std, 10, ejunk())
    return a, b


def prepare(ctx, c):
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    cfg = gens.config(c["sets"])
    ch = c["ch"] if c["chset"] else [1.0, 0.0, 1.0, 1, 0.0]
    p1 = M.setup(w, 1, nx, ny, cfg, psf=c["psf"], subsample=c["sub"])
    p2 = p07.scaled(p1, c["sets"], c["f2"])
    m1, m2 = M.image(w, 1, p1, nx, ny), M.image(w, 1, p2, nx, ny)
    M.free(w, 1)
    data, good, mask, err = p07.build(c, m1)
    if good.all():
        good = good.copy()
        good[ny // 2, nx // 2] = False
    if not good.any() or not p07.in_domain(c["kind"], data, m1, ch, good) or (c["kind"] == "model" and not p07.in_domain("model", data, m2, ch, good)):
        raise Skip("domain")
    return w, cfg, ch, p1, p2, data, good, mask, err


def make(w, mid, c, cfg, v):
    data, mask, mfmt, err = v
    kind = c["kind"]
    return M.setup(w, mid, c["nx"], c["ny"], cfg, psf=c["psf"], subsample=c["sub"], data=data, chars=c["ch"] if c["chset"] else None, mask=mask, mfmt=mfmt, err=err,
                   errtype=p07.ERRT.get(kind, 100), stat=kind if kind in ("cash", "pmlr", "model") else None, threads=1)


def run(ctx, c):
    w, cfg, ch, p1, p2, data, good, mask, err = prepare(ctx, c)
    nx, ny, kind = c["nx"], c["ny"], c["kind"]
    a, b = variants(c, data, good, mask, err)
    make(w, 1, c, cfg, a)
    make(w, 2, c, cfg, b)
    n1, n2 = w.call("mnvalid", 1)[0], w.call("mnvalid", 2)[0]
    require(n1 == int(good.sum()), "valid pixels %d, expected %d", n1, int(good.sum()))
    require(n2 == n1, "valid pixels %d with %s, %d otherwise", n2, c["how"], n1)
    tol = 1e-9 if c["psf"] is not None else 0.0
    for p in (p1, p2):
        s1, s2 = w.call("mstatval", 1, p)[0], w.call("mstatval", 2, p)[0]
        mag = abs(s1)
        if c["psf"] is not None:
            im = M.image(w, 1, p, nx, ny)
            mag = float(np.sum(S.terms(kind, data, im, ch, err)[1][good]))
        require(abs(s1 - s2) <= tol * mag, "%s statistic %.17g becomes %.17g when values that must not matter change (%s)", kind, s1, s2, c["how"])
        if kind != "cash":
            d1, d2 = w.call("mdev", 1, nx * ny, p)[0], w.call("mdev", 2, nx * ny, p)[0]
            close(d2, d1, tol * 100, tol * (1 + float(np.abs(d1).max())) * 100, "deviates (%s)" % c["how"])
            require((d1.reshape(ny, nx)[~good] == 0).all() and (d2.reshape(ny, nx)[~good] == 0).all(), "non-zero deviates at masked pixels")
    if c["psf"] is None and kind not in ("cash", "pmlr"):
        close(w.call("mweights", 2)[0], w.call("mweights", 1)[0], 0, 0, "weight image (%s)" % c["how"])
    M.free(w, 1)
    M.free(w, 2)
    ctx.note(nontrivial=bool((~good).any()) and int(good.sum()) >= 2, tag=kind)
    ctx.note(tag="how:" + c["how"])


# ---- fits: the same solution ---------------------------------------------------------------------------------------
@st.composite
def fcase(draw):
    c = draw(case(9))
    c["nx"], c["ny"] = max(c["nx"], 4), max(c["ny"], 4)
    c["psf"] = None
    c["sets"] = [[draw(gens.fl(1, c["nx"])), draw(gens.fl(1, c["ny"])), [["Gaussian", [draw(gens.fl(0, 180)), draw(gens.fl(0, 0.6)), draw(gens.logfl(20, 500)), draw(gens.logfl(0.8, 4))]], ["FlatSky", [draw(gens.fl(5, 50))]]]]]
    c["mask"] = "some"
    c["dkind"] = draw(st.sampled_from(["near", "counts", "far"]))
    c["solver"] = draw(st.sampled_from(["lm", "nm", "nm", "nlopt"]))
    c["kind"] = draw(st.sampled_from(p07.STATS if c["solver"] != "lm" else [k for k in p07.STATS if k != "cash"]))
    return c


def run_fit(ctx, c):
    w, cfg, ch, p1, p2, data, good, mask, err = prepare(ctx, c)
    if int(good.sum()) < 8:
        raise Skip("too few pixels")
    a, b = variants(c, data, good, mask, err)
    d = ctx.newdir()
    out = []
    n = len(p1)
    lo = [1.0, 1.0, -200, 0.0, 1.0, 0.3, 0.5]
    hi = [float(c["nx"]), float(c["ny"]), 400, 0.9, 3e3, 20, 200]
    lim = [(l, h) for l, h in zip(lo, hi)]
    cfgt = gens.config(c["sets"], limits=lim)
    args = {"lm": [], "nm": ["--nm"], "nlopt": ["--nlopt", "COBYLA"]}[c["solver"]]
    if c["chset"]:
        for o, v in zip(["--gain", "--readnoise", "--exptime", "--ncombined", "--sky"], c["ch"]):
            args += [o, str(v)]
    args += {"model": ["--model-errors"], "cash": ["--cashstat"], "pmlr": ["--mlr"]}.get(c["kind"], [])
    for k, v in enumerate((a, b)):
        dd, mk, mf, er = v
        s = os.path.join(d, "r%d" % k)
        os.makedirs(s)
        fits.write(os.path.join(s, "d.fits"), dd)
        ar = list(args)
        if mk is not None:
            fits.write(os.path.join(s, "m.fits"), mk)
            ar += ["--mask", "m.fits"] + (["--mask-zero-is-bad"] if mf == 20 else [])
        if er is not None:
            fits.write(os.path.join(s, "e.fits"), er)
            ar += ["--noise", "e.fits"] + {"sigma": [], "var": ["--errors-are-variances"], "weight": ["--errors-are-weights"]}[c["kind"]]
        open(os.path.join(s, "c.dat"), "w").write(cfgt)
        r = ctx.run("imfit", ["d.fits", "-c", "c.dat", "--save-params", "p.dat", "--ftol", "1e-4", "--max-threads", "1"] + ar, s, cpu=60)
        require(not r.crashed, "imfit crashed: %s", r.tail())
        p = os.path.join(s, "p.dat")
        t = "\n".join(l for l in open(p).read().splitlines() if "Generated on" not in l and not l.startswith("#   ")) if os.path.exists(p) else None
        res = re.findall(r"(?:CHI-SQUARE|STATISTIC|AIC|DOF|iterations|X0|Y0|PA|ell|I_0|sigma|I_sky).*", r.out)
        out.append((r.rc, t, [x for x in res if "file" not in x]))
    require(out[0][0] == out[1][0], "exit status %s becomes %s (%s)", out[0][0], out[1][0], c["how"])
    require(out[0][1] == out[1][1], "best-fit parameters change when values that must not matter change (%s, %s):\n%s\nversus\n%s", c["how"], c["kind"], out[0][1], out[1][1])
    require(out[0][2] == out[1][2], "printed results change when values that must not matter change (%s, %s):\n%s\nversus\n%s", c["how"], c["kind"], out[0][2], out[1][2])
    ctx.note(nontrivial=out[0][0] == 0 and out[0][1] is not None, tag=c["kind"])
    ctx.note(tag="how:" + c["how"])
    ctx.note(tag=c["solver"])


CHECK = dict(
    property="P08", needs={"opt": (("imfit",), True)},
    rule="a case is a data image with a mask, and a second version of it in which only values that must not matter differ (finite or non-finite values stored in masked data or noise pixels, non-finite data or unusable noise instead of a mask, the other mask convention, other mask values of the same meaning); non-trivial when at least one pixel is masked and two are not",
    assumptions=["values stored in masked pixels are at most 1e300 in size (the arithmetic of the statistics overflows beyond)"],
    components=[
        Component("equal", case(), run, 4000, 150000),
        Component("fits", fcase(), run_fit, 250, 6000),
    ])
