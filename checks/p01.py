"""P01: the model image is the sum of its components at IRAF pixel coordinates."""
import os
import numpy as np
from hypothesis import strategies as st
from imv import ref, gens, fits, models as M
from imv.harness import Component, require, close, Violation

SPLIT = [f for f in gens.FAST]


@st.composite
def case(draw, names=gens.ALLF, maxn=26, fast=False):
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    sets = draw(gens.model(nx, ny, names=names, max_sets=4, max_funcs=3, total=6))
    return dict(nx=nx, ny=ny, sets=sets, sub=draw(st.booleans()), shift=[draw(st.integers(-5, 5)), draw(st.integers(-5, 5))],
                perm=draw(st.randoms(use_true_random=False)).random(), threads=draw(st.sampled_from([1, 1, 2, 3])))


def smooth_tol(ts):
    return 1e-11 * sum(np.abs(t) for t in ts) + 1e-250


def run_sum(ctx, c):
    w = ctx.worker()
    nx, ny, sets, sub = c["nx"], c["ny"], c["sets"], c["sub"]
    p = M.setup(w, 1, nx, ny, gens.config(sets), subsample=sub, threads=c["threads"])
    img = M.image(w, 1, p, nx, ny)
    ts = M.terms(w, sets, nx, ny, sub)
    close(img, sum(ts), 0, smooth_tol(ts), "model image of %s is not the sum of its components" % (sets,))
    if not sub:
        # absolute anchor: the documented profiles at column, row
        X, Y = M.grid(nx, ny)
        want, tol = 0.0, 0.0
        for x0, y0, fs in sets:
            for n, q in fs:
                if n in ref.THREED:
                    v = M.term(w, n, q, x0, y0, nx, ny, sub)
                else:
                    v = ref.value(n, q, X - x0, Y - y0)
                want = want + v
                e = np.zeros_like(v)
                if n in EDGE:
                    e = np.abs(ref.value(n, q, (X - x0) * (1 + 1e-9), (Y - y0) * (1 + 1e-9)) - ref.value(n, q, (X - x0) * (1 - 1e-9), (Y - y0) * (1 - 1e-9)))
                tol = tol + 1e-8 * np.abs(v) + e + 1e-40 * np.max(np.abs(v)) + 1e-250
        close(img, want, 0, tol, "model image is not the documented profile at (column, row) for %s" % (sets,))
    # every single-function image contains exactly that function
    for k, t in enumerate(ts):
        s = M.single(w, 1, p, k, nx, ny)
        close(s, t, 1e-12, 1e-280, "single-function image %d of %s" % (k, sets))
    # afterwards the full image is unchanged
    close(M.image(w, 1, p, nx, ny), img, 0, 0, "model image after single-function images")
    M.free(w, 1)
    ctx.note(nontrivial=len(ts) >= 2 and float(np.max(np.abs(sum(ts)))) > 1e-100, tag="sets=%d" % len(sets))
    ctx.note(tag="nfunc=%d" % len(ts))
    ctx.note(tag="sub" if sub else "nosub")


EDGE = ("FerrersBar2D", "ModifiedKing", "ModifiedKing2", "FlatBar", "GaussianRing2Side", "EdgeOnRing2Side")


def run_meta(ctx, c):
    """Reordering and splitting function sets changes nothing; whole-pixel translation moves the image."""
    w = ctx.worker()
    nx, ny, sets, sub = c["nx"], c["ny"], c["sets"], c["sub"]
    p = M.setup(w, 1, nx, ny, gens.config(sets), subsample=sub)
    img = M.image(w, 1, p, nx, ny)
    ts = M.terms(w, sets, nx, ny, sub)
    split = [[x, y, [f]] for x, y, fs in sets for f in fs]
    k = int(c["perm"] * 720) % max(1, len(split))
    split = split[k:] + split[:k]
    if c["perm"] > 0.5:
        split.reverse()
    p2 = M.setup(w, 2, nx, ny, gens.config(split), subsample=sub)
    close(M.image(w, 2, p2, nx, ny), img, 0, smooth_tol(ts), "splitting/reordering the function sets of %s" % (sets,))
    dx, dy = c["shift"]
    if not any(f[0] == "TiltedSkyPlane" for s in sets for f in s[2]) or True:
        moved = [[x + dx, y + dy, fs] for x, y, fs in sets]
        # exact arithmetic: only when the shifted coordinates are representable without rounding
        bx, by = nx + abs(dx), ny + abs(dy)
        p3 = M.setup(w, 3, bx, by, gens.config(moved), subsample=sub)
        big = M.image(w, 3, p3, bx, by)
        x0, y0 = max(0, -dx), max(0, -dy)       # overlap in original pixel indices
        a = img[y0:, x0:]
        b = big[y0 + dy:y0 + dy + a.shape[0], x0 + dx:x0 + dx + a.shape[1]]
        if a.size:
            # rounding of the shifted centre moves the evaluation point by ~1e-14: compare with the exact terms there
            tm = M.terms(w, moved, bx, by, sub)
            close(big, sum(tm), 0, smooth_tol(tm), "image with centres shifted by (%d,%d)" % (dx, dy))
            e = sum(np.abs(t) for t in ts)[y0:, x0:]
            jump = any(f[0] in EDGE for s in sets for f in s[2])
            if not jump:
                close(b, a, 0, 1e-7 * e + 1e-9 * M.scale_of(ts) + 1e-250, "image of %s translated by (%d,%d)" % (sets, dx, dy))
    M.free(w, 1); M.free(w, 2); M.free(w, 3)
    ctx.note(nontrivial=len(split) >= 2, tag="nfunc=%d" % len(split))


def run_cli(ctx, c):
    """makeimage: the FITS image has the model of the configuration file at its columns and rows."""
    nx, ny, sets = c["nx"], c["ny"], c["sets"]
    d = ctx.newdir()
    open(os.path.join(d, "c.dat"), "w").write(gens.config(sets, header=["NCOLS %d" % nx, "NROWS %d" % ny]))
    a = ["c.dat", "-o", "o.fits", "--output-functions", "f"]
    if not c["sub"]:
        a.append("--no-subsampling")
    r = ctx.run("makeimage", a, d)
    require(r.rc == 0, "makeimage failed: %s", r.tail())
    img = fits.read(os.path.join(d, "o.fits"))[0]
    ts = M.terms(ctx.worker(), sets, nx, ny, c["sub"])
    f32 = 3e-7
    close(img, sum(ts), 0, f32 * np.abs(sum(ts)) + 1e-10 * sum(np.abs(t) for t in ts) + 1e-37, "makeimage output for %s" % (sets,))
    k = 0
    for _, _, fs in sets:
        for f in fs:
            s = fits.read(os.path.join(d, "f%d_%s.fits" % (k + 1, f[0])))[0]
            close(s, ts[k], f32, 1e-37, "makeimage single-function image %d" % (k + 1))
            k += 1
    ctx.note(nontrivial=k >= 2, tag="nfunc=%d" % k)


CHECK = dict(
    property="P01", needs={"opt": (("makeimage",), True)},
    rule="a case is an image size 1..26 x 1..26, 1-4 function sets with 1-3 functions each (all available functions), centres inside or outside the image, sub-sampling on or off; non-trivial when at least two functions contribute",
    assumptions=["values of single functions are decided by P02; with sub-sampling off the documented formulas are used directly", "makeimage stores single precision"],
    components=[
        Component("sum", case(gens.FAST), run_sum, 6000, 150000),
        Component("sum3d", case(gens.ALLF, 6), run_sum, 400, 8000),
        Component("reorder", case(gens.FAST), run_meta, 2500, 60000),
        Component("makeimage", case(gens.FAST), run_cli, 500, 10000),
    ])
