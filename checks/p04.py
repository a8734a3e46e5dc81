"""P04: PSF convolution equals direct linear convolution with the normalised PSF."""
import os
import numpy as np
from hypothesis import strategies as st
from imv import ref, gens, fits, models as M, conv
from imv.harness import Component, require, close, Violation


@st.composite
def psf_image(draw, maxc=13, maxr=13, minc=1):
    nc, nr = draw(st.integers(minc, maxc)), draw(st.integers(minc, maxr))
    kind = draw(st.sampled_from(["gauss", "random", "delta", "sparse", "signed"]))
    s = draw(st.integers(0, 2**31))
    r = np.random.default_rng(s)
    y, x = np.mgrid[0:nr, 0:nc].astype(float)
    if kind == "gauss":
        a = np.exp(-0.5 * ((x - nc // 2) / (0.3 + 0.2 * nc)) ** 2 - 0.5 * ((y - nr // 2) / (0.3 + 0.15 * nr)) ** 2)
    elif kind == "random":
        a = r.random((nr, nc)) + 0.01
    elif kind == "delta":
        a = np.zeros((nr, nc)); a[r.integers(nr), r.integers(nc)] = 1.0
    elif kind == "sparse":
        a = np.where(r.random((nr, nc)) < 0.3, r.random((nr, nc)), 0.0); a[nr // 2, nc // 2] += 1
    else:
        a = r.normal(0, 1, (nr, nc)); a *= 0.5 / max(1e-9, np.abs(a).sum()); a[nr // 2, nc // 2] += 1
    a = a * draw(st.sampled_from([1.0, 7.5, 1e-3, 1e4]))
    return np.array([[float("%.9g" % v) for v in row] for row in a]).tolist()


@st.composite
def case(draw, maxn=24, names=gens.FAST):
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    sets = draw(gens.model(nx, ny, names=names, max_sets=2, max_funcs=2, margin=8.0))
    return dict(nx=nx, ny=ny, sets=sets, psf=draw(psf_image()), norm=draw(st.booleans()), sub=draw(st.booleans()), th=draw(st.sampled_from([1, 1, 2, 4])))


def expected(w, c, sets=None):
    psf = np.array(c["psf"])
    pr, pc = psf.shape
    k = psf / psf.sum() if c["norm"] else psf
    ts = M.terms(w, sets or c["sets"], c["nx"] + 2 * pc, c["ny"] + 2 * pr, c["sub"], box=(1 - pc, 1 - pr))
    big = sum(ts)
    full = conv.direct(big, k)
    tol = 1e-12 * np.abs(k).sum() * np.abs(big).max() * 30 + 1e-250
    return big, full, full[pr:pr + c["ny"], pc:pc + c["nx"]], tol


def run_model(ctx, c):
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    p = M.setup(w, 1, nx, ny, gens.config(c["sets"]), psf=c["psf"], norm=c["norm"], subsample=c["sub"], threads=c["th"])
    img = M.image(w, 1, p, nx, ny)
    big, full, want, tol = expected(w, c)
    ext = w.call("mexp", 1, p)[0].reshape(full.shape)
    pr, pc = np.array(c["psf"]).shape
    what = "%dx%d model %s convolved with a %dx%d PSF (norm=%s)" % (nx, ny, c["sets"], pc, pr, c["norm"])
    close(img, want, 0, tol, what)
    close(ext[pr:pr + ny, pc:pc + nx], img, 0, 0, "central part of the expanded image")
    close(ext, full, 0, tol, "expanded image: " + what)
    # single functions are convolved in the same way
    k = (nx * 7 + ny) % sum(len(s[2]) for s in c["sets"])
    j, one = 0, None
    for x, y, fs in c["sets"]:
        for f in fs:
            if j == k:
                one = [[x, y, [f]]]
            j += 1
    s = M.single(w, 1, p, k, nx, ny)
    close(s, expected(w, c, one)[2], 0, tol, "single function %d: %s" % (k, what))
    close(M.image(w, 1, p, nx, ny), img, 0, tol * 1e-2, "second evaluation")
    M.free(w, 1)
    ctx.note(nontrivial=pr * pc > 1 and float(np.abs(big).max()) > 1e-200, tag="psf>%s" % ("img" if pc > nx or pr > ny else "no"))
    ctx.note(tag="even" if pc % 2 == 0 or pr % 2 == 0 else "odd")
    ctx.note(tag="square" if pc == pr else "oblong")


@st.composite
def ccase(draw):
    nc, nr = draw(st.integers(1, 40)), draw(st.integers(1, 40))
    psf = draw(psf_image(17, 17))
    seed = draw(st.integers(0, 2**31))
    return dict(nc=nc, nr=nr, psf=psf, seed=seed, kind=draw(st.sampled_from(["noise", "edge", "delta"])), norm=draw(st.booleans()), th=draw(st.sampled_from([0, 1, 2, 5])))


def run_conv(ctx, c):
    w = ctx.worker()
    r = np.random.default_rng(c["seed"])
    nr, nc = c["nr"], c["nc"]
    img = np.zeros((nr, nc))
    if c["kind"] == "noise":
        img = r.normal(0, 100, (nr, nc))
    elif c["kind"] == "delta":
        img[r.integers(nr), r.integers(nc)] = 1000.0
    else:
        img[0, :] = 1; img[:, -1] = 2; img[-1, 0] = 50
    psf = np.array(c["psf"])
    out = w.call("conv", nc, nr, psf.shape[1], psf.shape[0], int(c["norm"]), c["th"], img, psf)[0].reshape(nr, nc)
    k = psf / psf.sum() if c["norm"] else psf
    want = conv.direct(img, k)
    close(out, want, 0, 1e-12 * np.abs(k).sum() * np.abs(img).max() * 30, "convolution of a %dx%d image with a %dx%d PSF" % (nc, nr, psf.shape[1], psf.shape[0]))
    ctx.note(nontrivial=psf.size > 1, tag=c["kind"])


def run_cli(ctx, c):
    d = ctx.newdir()
    nx, ny = c["nx"], c["ny"]
    psf = np.array(c["psf"])
    fits.write(os.path.join(d, "psf.fits"), psf)
    open(os.path.join(d, "c.dat"), "w").write(gens.config(c["sets"], header=["NCOLS %d" % nx, "NROWS %d" % ny]))
    a = ["c.dat", "--psf", "psf.fits", "-o", "o.fits", "--save-expanded", "--max-threads", str(c["th"])]
    if not c["norm"]:
        a.append("--no-normalize")
    if not c["sub"]:
        a.append("--no-subsampling")
    r = ctx.run("makeimage", a, d)
    require(r.rc == 0, "makeimage failed: %s", r.tail())
    img = fits.read(os.path.join(d, "o.fits"))[0]
    big, full, want, tol = expected(ctx.worker(), c)
    close(img, want, 2e-7, tol + 1e-37, "makeimage --psf output for %s" % (c["sets"],))
    ctx.note(nontrivial=psf.size > 1)


CHECK = dict(
    property="P04", needs={"opt": (("makeimage",), True)},
    rule="a case is an image 1..24 x 1..24 (convolver alone: up to 40), a model of 1-4 functions, a PSF of 1..13 x 1..13 pixels (odd, even, oblong, larger than the image; Gaussian, random, delta, signed), normalisation, sub-sampling and thread count; non-trivial when the PSF has more than one pixel",
    assumptions=["the central pixel of an even axis of n pixels is 0-based n/2", "FFT rounding is below 3e-11 of the largest value"],
    components=[
        Component("model", case(), run_model, 4000, 120000),
        Component("convolver", ccase(), run_conv, 6000, 200000),
        Component("makeimage", case(), run_cli, 500, 8000),
    ])
