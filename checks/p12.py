"""P12: saved fit results describe the fit and reproduce it when read back."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, cfgref, fitgen as F, models as M, statref as S
from imv.harness import Component, require, close, Violation, Skip

SOLVERS = [[], [], [], ["--nm"], ["--nlopt", "BOBYQA"], ["--nlopt", "SBPLX"], ["--de"]]


@st.composite
def case(draw):
    sol = draw(st.sampled_from(SOLVERS))
    de = sol == ["--de"]
    c = draw(F.scene(maxn=7 if de else 11, limits="all" if de else "mixed", total=2 if de else 3, fixed=0.4 if de else 0.25))
    if c["kind"] == "cash" and not sol:
        sol = ["--nm"]
    c["sol"] = sol
    c["boot"] = draw(st.sampled_from([0, 0, 0, 0, 3])) if not sol or sol == ["--nm"] else 0
    c["th"] = draw(st.sampled_from([1, 1, 2]))
    c["names"] = draw(st.sampled_from([["p.dat", "m.fits", "r.fits", "w.fits"], ["out/p", "out/m.fits", "out/r.fits", "out/w.fits"], [None, "m.fits", "r.fits", "w.fits"]]))
    c["hdr"] = draw(st.booleans())
    return c


def sameparam(text, v, kind):
    """text is the printed form of v."""
    p = float(text)
    return abs(p - v) <= F.half_ulp(v, kind) * 1.01 + 1e-12 * abs(v)


def run(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    nx, ny = c["nx"], c["ny"]
    nv = int(P.good.sum())
    if nv - P.nfree - 1 <= 0:
        raise Skip("too few pixels")
    d = ctx.newdir()
    os.makedirs(os.path.join(d, "out"))
    data, opts = F.files(d, c, P)
    cfgtext = F.start_config(c, P)
    open(os.path.join(d, "c.dat"), "w").write(cfgtext)
    pn, mn, rn, wn = c["names"]
    save = (["--save-params", pn] if pn else []) + ["--save-model", mn, "--save-residual", rn, "--save-weights", wn]
    chi = c["kind"] not in ("cash", "pmlr")
    pn = pn or "bestfit_parameters_imfit.dat"
    boot = ["--bootstrap", str(c["boot"]), "--save-bootstrap", "boot.dat"] if c["boot"] else []
    q = ctx.run("imfit", [data, "-c", "c.dat", "--max-threads", c["th"], "--seed", "7"] + opts + c["sol"] + save + boot, d, cpu=8)
    what = "imfit %s, %s, section %s" % (" ".join(c["sol"]) or "LM", c["kind"], F.sect(c))
    if q.timeout:
        raise Skip("slow fit")
    require(not q.crashed, "%s crashed: %s", what, q.tail())
    if q.rc != 0:
        raise Skip("fit refused")
    if re.search(r"^\s*nan|= -?nan|= -?inf", q.out, re.M):
        raise Skip("fit ran into undefined values")
    if not re.search(r"^AIC = ", q.out, re.M):
        raise Skip("no fit")
    R = F.printed(q.out, c)
    text = open(os.path.join(d, pn)).read()
    body = F.body_lines(text)
    require(body == F.body_lines(R["body"]), "%s: the saved parameters are not those printed.\nsaved:\n%s\nprinted:\n%s", what, "\n".join(body), R["body"])
    # -- the file is a configuration listing the same model
    try:
        g = cfgref.parse(text, True)
    except cfgref.Reject as e:
        raise Violation("%s: the saved parameter file is not a valid configuration (%s):\n%s" % (what, e, text))
    o = cfgref.parse(cfgtext, True)
    for k in ("names", "labels", "extra", "starts", "counts"):
        require(g[k] == o[k], "%s: saved file lists %s %s, the model has %s", what, k, g[k], o[k])
    require(len(g["params"]) == len(P.start), "%s: %d parameters saved, the model has %d", what, len(g["params"]), len(P.start))
    labels = [l.split()[0] for l in body if not l.startswith(("FUNCTION", "OPTIONAL", "method"))]
    want = gens.param_labels(c["sets"])
    require(labels == want, "%s: saved parameter names %s, expected %s", what, labels, want)
    start = F.shift(P.start, P.kinds, P.off)
    for k, v in enumerate(g["params"]):
        if not P.free[k]:
            require(sameparam(repr(v), start[k], P.kinds[k]), "%s: fixed parameter %s = %r was saved as %r", what, want[k], start[k], v)
        l = F.full_limits(P)[k]
        if l not in (None, "fixed"):
            h = F.half_ulp(v, P.kinds[k]) * 1.01 + 1e-9 * abs(v)
            require(l[0] - h <= v <= l[1] + h, "%s: saved %s = %r is outside its limits %s", what, want[k], v, l)
    # -- statistics at the saved values
    saved = F.shift(g["params"], P.kinds, P.off, -1)
    fixedv = [s if not f else v for v, s, f in zip(saved, P.start, P.free)]
    F.fit_library(w, 3, c, P, sets=F.with_values(c["sets"], saved))
    img = M.image(w, 3, saved, nx, ny)
    if not np.isfinite(img).all() or not F.in_domain(c, P, img):
        M.free(w, 3)
        raise Skip("noise undefined at the best fit")
    rng = np.random.default_rng(c["seed"] + 9)
    s0, ds, i0, di = F.bounds(w, 3, c, P, saved, rng, images=True)
    s1, ds1, _, _ = F.bounds(w, 3, c, P, fixedv, rng)
    mi, com = fits.read(os.path.join(d, mn))[0::2]
    if abs(R["stat"] - s0) > 4 * max(ds, ds1) + abs(s1 - s0) + 1e-6 or (mi.shape == i0.shape and (np.abs(mi - i0) > 4 * di + 2e-7 * np.abs(i0)).any()):
        # sub-pixel schemes jump at some positions: sample the printing precision more densely before judging
        _, ds, _, di = F.bounds(w, 3, c, P, saved, rng, n=600, images=True)
    M.free(w, 3)
    mag = abs(s0)
    if not chi:
        t, m = S.terms(c["kind"], P.data, img, c["ch"], P.err)
        mag = float(m[P.good].sum())
    eps = 1.1e-6 + 1e-10 * mag
    tol = 4 * max(ds, ds1) + abs(s1 - s0) + eps
    require(abs(R["stat"] - s0) <= tol, "%s: best-fit statistic reported %.8f, at the saved parameters it is %.8f (printing precision accounts for %.2g)", what, R["stat"], s0, tol)
    # -- header
    hd = dict(re.findall(r"^#\s+(Fit statistic|Best-fit value|Reduced value|AIC|BIC): (.*)$", text, re.M))
    require(len(hd) == 5, "%s: header of the saved file is incomplete: %s", what, hd)
    require(hd["Fit statistic"] == F.WORDS[c["kind"]], "%s: saved file names the statistic %r", what, hd["Fit statistic"])
    for name, got in (("Best-fit value", R["stat"]), ("AIC", R["aic"]), ("BIC", R["bic"])):
        require(abs(float(hd[name]) - got) <= eps, "%s: saved file gives %s %s, the fit reported %r%s", what, name, hd[name], got, " (before bootstrap resampling)" if boot else "")
    if R["red"] is not None:
        require(abs(float(hd["Reduced value"]) - R["red"]) <= eps, "%s: saved file gives reduced value %s, the fit reported %r", what, hd["Reduced value"], R["red"])
        require(abs(R["red"] - R["stat"] / (nv - P.nfree)) <= 2e-6 + eps, "%s: reduced statistic %r for statistic %r with %d valid pixels, %d free parameters", what, R["red"], R["stat"], nv, P.nfree)
    else:
        require(hd["Reduced value"] == "none", "%s: reduced value %s for the Cash statistic", what, hd["Reduced value"])
    if R["dof"] is not None:
        require(R["dof"] == nv - P.nfree, "%s: %d degrees of freedom, expected %d", what, R["dof"], nv - P.nfree)
    A, B = S.aic(R["stat"], P.nfree, nv), S.bic(R["stat"], P.nfree, nv)
    require(abs(R["aic"] - A) <= eps + 1e-6 and abs(R["bic"] - B) <= eps + 1e-6, "%s: AIC, BIC %r %r, expected %.8f %.8f", what, R["aic"], R["bic"], A, B)
    # -- images
    ri = fits.read(os.path.join(d, rn))[0]
    sc = float(np.abs(i0).max())
    close(mi, i0, 2e-7, 4 * di + 1e-9 * sc, "%s: saved model image, compared with the model at the saved parameters" % what)
    if nx * ny and np.isfinite(ri).all():
        close(ri, P.data - mi, 1.5e-7, 1.5e-7 * np.maximum(np.abs(P.data), np.abs(mi)), "%s: saved residual image, compared with data - model" % what)
    else:
        raise Violation("%s: residual image is not finite" % what)
    # statistic from the saved images
    if chi:
        kind = c["kind"]
        wi = fits.read(os.path.join(d, wn))[0]
        with np.errstate(all="ignore"):
            ww = P.err if kind == "weight" else 1 / S.sigma2(kind, P.data, mi, c["ch"], P.err)
        ww = np.where(P.good, ww, 0.0)
        close(wi, ww, 1e-5, 1e-30, "%s: saved weight image, compared with 1/sigma^2 (0 where masked)" % what)
        s3 = float((wi * ri ** 2).sum())
        require(abs(s3 - R["stat"]) <= 1e-5 * (R["stat"] + float((wi * np.abs(ri) * np.maximum(np.abs(mi), np.abs(P.data))).sum())) + 1e-5, "%s: chi^2 from the saved residual and weight images is %.8g, reported %.8g", what, s3, R["stat"])
    hist = "".join(v for _, v in com).replace(" ", "")
    for t in (pn, "imfit", "data.fits"):
        require(t in hist, "%s: %r is not recorded in the header of the saved model image: %s", what, t, hist)
    # -- reading back
    q2 = ctx.run("imfit", [data, "-c", pn, "--fitstat-only", "--max-threads", c["th"]] + opts, d)
    require(q2.rc == 0, "%s: imfit does not accept its own saved file: %s\n%s", what, q2.tail(), text)
    m2 = re.findall(r"^\s*%s = (\S+)" % F.TITLE.get(c["kind"], "CHI-SQUARE"), q2.out, re.M)
    require(len(m2) == 1 and abs(float(m2[0]) - s0) <= eps, "%s: read back, the saved file gives %s; the statistic at these parameters is %.8f", what, m2, s0)
    if not c["sec"]:
        q3 = ctx.run("makeimage", [pn, "--refimage", "data.fits", "-o", "mk.fits"] + (["--psf", "psf.fits"] if c["psf"] is not None else []) + ([] if c["sub"] else ["--no-subsampling"]), d)
        require(q3.rc == 0, "%s: makeimage does not accept the saved file: %s\n%s", what, q3.tail(), text)
        mk = fits.read(os.path.join(d, "mk.fits"))[0]
        close(mk, i0, 2e-7, 1e-9 * sc, "%s: image made by makeimage from the saved file" % what)
    moved = max(abs(a - b) / (abs(b) + 1e-9) for a, b in zip(saved, P.start))
    ctx.note(nontrivial=moved > 1e-4, tag=c["kind"])
    ctx.note(tag=" ".join(c["sol"]) or "lm")
    if c["sec"]:
        ctx.note(tag="section")
    if boot:
        ctx.note(tag="bootstrap")
    if any(l == "fixed" for l in P.lims):
        ctx.note(tag="fixed")
    if c["psf"] is not None:
        ctx.note(tag="psf")
    if any(f[2] for s in c["sets"] for f in s[2]):
        ctx.note(tag="optional parameters")
    if sum(c["labels"][k] is not None for k in range(len(c["labels"]))):
        ctx.note(tag="labels")


CHECK = dict(
    property="P12", needs={"opt": (("imfit", "makeimage"), True)},
    rule="a case is a generated scene (1-3 functions, noise, statistic, mask, error image, PSF, image section) fitted by imfit with one of six solvers, fixed parameters, limits, labels and optional parameters, saving parameters, model, residual and weights, sometimes with a bootstrap; non-trivial when the best fit differs from the start",
    assumptions=["printing precision (4 decimals for centres, 6 significant digits otherwise) is turned into a bound on the statistic and on every model pixel by evaluating perturbed parameters",
                 "fits which run into undefined values or are refused are outside the domain"],
    components=[
        Component("saved", case(), run, 400, 20000),
    ])
