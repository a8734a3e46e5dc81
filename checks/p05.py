"""P05: oversampled PSF regions equal fine-grid convolution, block-averaged."""
import os
import numpy as np
from hypothesis import strategies as st
from imv import ref, gens, fits, models as M, conv
from imv.harness import Component, require, close, Violation
from .p04 import psf_image, expected


@st.composite
def regions(draw, nx, ny, k, out=True):
    L = []
    for _ in range(k):
        m = 4 if out else 0
        x1, y1 = draw(st.integers(1 - m, nx)), draw(st.integers(1 - m, ny))
        x2, y2 = draw(st.integers(max(1, x1), min(nx + m, x1 + 9))), draw(st.integers(max(1, y1), min(ny + m, y1 + 9)))
        L.append([x1, x2, y1, y2])
    return L


@st.composite
def case(draw, maxn=14, cli=False, psfmax=9):
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    sets = draw(gens.model(nx, ny, names=gens.FAST, max_sets=2, max_funcs=2, margin=5.0))
    psf = draw(st.one_of(st.none(), psf_image(7, 7)))
    nreg = draw(st.sampled_from([1, 1, 2, 3]))
    regs = draw(regions(nx, ny, nreg))
    same = draw(st.booleans())
    norm = draw(st.booleans())
    os_ = []
    for r in regs:
        if os_ and same:
            q = dict(os_[0]); q["reg"] = r
        else:
            q = dict(psf=draw(psf_image(psfmax, psfmax)), scale=draw(st.sampled_from([1, 2, 3, 3, 4, 5])), norm=norm if cli else draw(st.booleans()), reg=r)
        os_.append(q)
    off = [0, 0] if cli else draw(st.sampled_from([[0, 0], [0, 0], [7, 3], [100, 250]]))
    return dict(nx=nx, ny=ny, sets=sets, psf=psf, norm=norm, os=os_, off=off, same=same, sub=draw(st.booleans()), th=draw(st.sampled_from([1, 1, 2, 4])),
                br=draw(st.sampled_from([0, 0, 1])))


def fine(w, sets, sub, box, scale, psf, norm):
    """Model on the fine grid of the region box=(x1,x2,y1,y2), convolved and block-averaged."""
    x1, x2, y1, y2 = box
    s = scale
    pr, pc = psf.shape
    nfx, nfy = s * (x2 - x1 + 1) + 2 * pc, s * (y2 - y1 + 1) + 2 * pr
    fr = 1.0 / s
    off = 0.5 * fr - 0.5
    xs = np.array([x1 + off + (j - pc) * fr for j in range(nfx)])
    ys = np.array([y1 + off + (i - pr) * fr for i in range(nfy)])
    X, Y = np.meshgrid(xs, ys)
    tot = np.zeros(X.shape)
    for x0, y0, fs in sets:
        for f in fs:
            tot += w.call("fval", int(sub), 1.0, 0.0, 1.0, f[0].encode(), f[1], [x0, y0], np.stack([X.ravel(), Y.ravel()], 1))[3].reshape(X.shape)
    k = psf / psf.sum() if norm else psf
    c = conv.direct(tot, k)[pr:nfy - pr, pc:nfx - pc]
    ny, nx = y2 - y1 + 1, x2 - x1 + 1
    out = c.reshape(ny, s, nx, s).mean(axis=(1, 3))
    return out, 1e-12 * np.abs(k).sum() * np.abs(tot).max() * 30 + 1e-250


def rstr(r, off, br=0):
    s = "%d:%d,%d:%d" % (r[0] + off[0], r[1] + off[0], r[2] + off[1], r[3] + off[1])
    return "[%s]" % s if br else s


def clip(r, nx, ny):
    return max(1, r[0]), min(nx, r[1]), max(1, r[2]), min(ny, r[3])


def verify(c, got, base, cand, what, rtol=0.0, floor=0.0, btol=0.0):
    """cand: list of (box, image, tol); a pixel inside several regions may show any of them."""
    nx, ny = c["nx"], c["ny"]
    ok = np.zeros((ny, nx), bool)
    cover = np.zeros((ny, nx), bool)
    want = base.copy()
    for (x1, x2, y1, y2), im, tol in cand:
        s = (slice(y1 - 1, y2), slice(x1 - 1, x2))
        cover[s] = True
        ok[s] |= np.abs(got[s] - im) <= tol + rtol * np.abs(im) + floor
        want[s] = im
    with np.errstate(all="ignore"):
        outside = np.abs(got - base) <= rtol * np.abs(base) + floor + btol
    bad = np.argwhere(np.where(cover, ~ok, ~outside))
    if len(bad):
        y, x = bad[0]
        raise Violation("%s: %d of %d pixels differ; first at (x=%d,y=%d) %s the regions: got %.12g expected %.12g" %
                        (what, len(bad), got.size, x + 1, y + 1, "inside" if cover[y, x] else "outside", got[y, x], want[y, x]))
    return cover


def run_model(ctx, c):
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    cfg = gens.config(c["sets"])
    os_ = [dict(psf=o["psf"], scale=o["scale"], norm=o["norm"], region=rstr(o["reg"], c["off"], c["br"]), xoff=c["off"][0], yoff=c["off"][1]) for o in c["os"]]
    p = M.setup(w, 1, nx, ny, cfg, psf=c["psf"], norm=c["norm"], subsample=c["sub"], threads=c["th"])
    base = M.image(w, 1, p, nx, ny)
    nf = sum(len(s[2]) for s in c["sets"])
    k = (nx * 7 + ny) % nf
    sbase = M.single(w, 1, p, k, nx, ny)
    M.free(w, 1)
    M.setup(w, 1, nx, ny, cfg, psf=c["psf"], norm=c["norm"], subsample=c["sub"], threads=c["th"], osamp=os_)
    got = M.image(w, 1, p, nx, ny)
    sgot = M.single(w, 1, p, k, nx, ny)
    again = M.image(w, 1, p, nx, ny)
    M.free(w, 1)
    one = []
    j = 0
    for x, y, fs in c["sets"]:
        for f in fs:
            if j == k:
                one = [[x, y, [f]]]
            j += 1
    what = "%dx%d model %s with oversampled regions %s" % (nx, ny, c["sets"], [(o["reg"], o["scale"], np.array(o["psf"]).shape, o["norm"]) for o in c["os"]])
    for g, b, sets, lab in ((got, base, c["sets"], "image"), (sgot, sbase, one, "image of function %d" % k)):
        cand = []
        for o in c["os"]:
            box = clip(o["reg"], nx, ny)
            im, tol = fine(w, sets, c["sub"], box, o["scale"], np.array(o["psf"]), o["norm"])
            cand.append((box, im, tol))
        # two plans of the same FFT may differ in rounding
        btol = 0.0 if c["psf"] is None else expected(w, dict(c), sets)[3]
        verify(c, g, b, cand, lab + " of " + what, btol=btol)
    close(again, got, 0, 0, "second evaluation of " + what)
    ctx.note(nontrivial=any(o["scale"] > 1 for o in c["os"]) and bool(np.abs(got - base).max() > 0), tag="regions=%d" % len(c["os"]))
    ctx.note(tag="square" if all(o["reg"][1] - o["reg"][0] == o["reg"][3] - o["reg"][2] for o in c["os"]) else "oblong")
    ctx.note(tag="clipped" if any(clip(o["reg"], nx, ny) != tuple(o["reg"]) for o in c["os"]) else "inside")
    ctx.note(tag="mainpsf" if c["psf"] else "nopsf")


def run_cli(ctx, c):
    d = ctx.newdir()
    nx, ny = c["nx"], c["ny"]
    open(os.path.join(d, "c.dat"), "w").write(gens.config(c["sets"], header=["NCOLS %d" % nx, "NROWS %d" % ny]))
    a = ["c.dat", "--max-threads", str(c["th"])]
    if c["psf"]:
        fits.write(os.path.join(d, "psf.fits"), np.array(c["psf"]))
        a += ["--psf", "psf.fits"]
    if not c["norm"]:
        a.append("--no-normalize")
    if not c["sub"]:
        a.append("--no-subsampling")
    r = ctx.run("makeimage", a + ["-o", "b.fits"], d)
    require(r.rc == 0, "makeimage failed: %s", r.tail())
    base = fits.read(os.path.join(d, "b.fits"))[0]
    npsf = 1 if c["same"] else len(c["os"])
    for k in range(npsf):
        fits.write(os.path.join(d, "o%d.fits" % k), np.array(c["os"][k]["psf"]))
        a += ["--overpsf", "o%d.fits" % k, "--overpsf_scale", str(c["os"][k]["scale"])]
    for o in c["os"]:
        a += ["--overpsf_region", rstr(o["reg"], [0, 0], c["br"])]
    r = ctx.run("makeimage", a + ["-o", "o.fits"], d)
    require(r.rc == 0, "makeimage failed: %s", r.tail())
    got = fits.read(os.path.join(d, "o.fits"))[0]
    w = ctx.worker()
    cand = []
    for o in c["os"]:
        box = clip(o["reg"], nx, ny)
        im, tol = fine(w, c["sets"], c["sub"], box, o["scale"], np.array(o["psf"]), c["norm"])
        cand.append((box, im, tol + 1e-37))
    btol = 1e-37 if c["psf"] is None else expected(w, c)[3]
    verify(c, got, base, cand, "makeimage --overpsf for %s regions %s" % (c["sets"], [(o["reg"], o["scale"]) for o in c["os"]]), rtol=2e-7, floor=1e-37, btol=btol)
    ctx.note(nontrivial=any(o["scale"] > 1 for o in c["os"]), tag="regions=%d" % len(c["os"]))


@st.composite
def dcase(draw):
    s = draw(st.sampled_from([1, 2, 3, 4, 5]))
    rx, ry = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    pc, pr = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    mc, mr = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    x1, y1 = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    ex, ey = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    return dict(s=s, rx=rx, ry=ry, pc=pc, pr=pr, mc=mc, mr=mr, x1=x1, y1=y1, ex=ex, ey=ey, seed=draw(st.integers(0, 2**31)))


def run_down(ctx, c):
    w = ctx.worker()
    r = np.random.default_rng(c["seed"])
    s = c["s"]
    big = r.normal(0, 10, (c["ry"] * s + 2 * c["pr"], c["rx"] * s + 2 * c["pc"]))
    main = r.normal(0, 10, (c["y1"] - 1 + c["ry"] + c["ey"] + 2 * c["mr"], c["x1"] - 1 + c["rx"] + c["ex"] + 2 * c["mc"]))
    out = w.call("dsamp", big.shape[1], big.shape[0], c["pc"], c["pr"], main.shape[1], main.shape[0], c["mc"], c["mr"], c["x1"], c["y1"], s, big, main)[0].reshape(main.shape)
    want = main.copy()
    core = big[c["pr"]:big.shape[0] - c["pr"], c["pc"]:big.shape[1] - c["pc"]].reshape(c["ry"], s, c["rx"], s).mean(axis=(1, 3))
    ys, xs = c["y1"] - 1 + c["mr"], c["x1"] - 1 + c["mc"]
    want[ys:ys + c["ry"], xs:xs + c["rx"]] = core
    close(out, want, 0, 1e-12, "DownsampleAndReplace for %s" % c)
    ctx.note(nontrivial=s > 1, tag="square" if c["rx"] == c["ry"] else "oblong")


CHECK = dict(
    property="P05", needs={"opt": (("makeimage",), True)},
    rule="a case is an image 1..14 x 1..14, a model of 1-4 functions, an optional main PSF, 1-3 regions (1-10 pixels per side, possibly reaching over the image edge), each with its own or a shared oversampled PSF of 1..9 x 1..9 pixels, factor 1-5, normalisation, image-section offset; non-trivial when a factor exceeds 1 and the region changes the image",
    assumptions=["with sub-sampling on, 'the model' at a fine-grid point is the value the function gives there (P02)", "a pixel inside several overlapping regions may take any of them"],
    components=[
        Component("model", case(), run_model, 3000, 90000),
        Component("downsample", dcase(), run_down, 4000, 100000),
        Component("makeimage", case(cli=True), run_cli, 400, 8000),
    ])
