"""P14: fitting an image section equals fitting the cut-out, with centres in full-image coordinates."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, fitgen as F
from imv.harness import Component, require, Violation, Skip

SOLVERS = [[], [], [], ["--nm"], ["--nlopt", "BOBYQA"], ["--fitstat-only"], ["--fitstat-only"]]


def dyadic(c, P):
    """Centres and their limits become multiples of 1/64, so that adding the section's offset is exact."""
    q = lambda v: round(v * 64) / 64
    for k, kd in enumerate(P.kinds):
        if kd in ("x", "y"):
            P.start[k] = q(P.start[k])
            l = P.lims[k]
            if l not in (None, "fixed"):
                P.lims[k] = (min(q(l[0]), P.start[k] - 1 / 64), max(q(l[1]), P.start[k] + 1 / 64))


@st.composite
def scene(draw, **kw):
    c = draw(F.scene(section=False, **kw))
    c["sec"] = [draw(st.one_of(st.integers(0, 5), st.integers(0, 400))), draw(st.one_of(st.integers(0, 5), st.integers(0, 60))), draw(st.sampled_from([0, 0, 1, 3, 9])), draw(st.sampled_from([0, 0, 1, 3, 9]))]
    if c["sec"] == [0, 0, 0, 0]:
        c["sec"][draw(st.integers(0, 1))] = draw(st.integers(1, 9))
    c["over"] = None
    if draw(st.integers(0, 4)) == 0 and c["nx"] > 4 and c["ny"] > 4:
        x1, y1 = draw(st.integers(1, c["nx"] - 2)), draw(st.integers(1, c["ny"] - 2))
        x2, y2 = draw(st.integers(x1 + 1, c["nx"])), draw(st.integers(y1 + 1, c["ny"]))
        c["over"] = [draw(st.integers(2, 3)), x1, x2, y1, y2]
        c["bracket"] = draw(st.booleans())
    return c


@st.composite
def fitcase(draw):
    c = draw(scene(maxn=11))
    sol = draw(st.sampled_from(SOLVERS))
    if c["kind"] == "cash" and not sol:
        sol = ["--nm"]
    c["sol"] = sol
    c["boot"] = draw(st.sampled_from([0, 0, 0, 3])) if not sol or sol == ["--nm"] else 0
    c["starname"] = draw(st.integers(0, 5))
    return c


def over_options(d, c, off):
    if not c["over"]:
        return []
    s, x1, x2, y1, y2 = c["over"]
    n = 4 * s + 1
    yy, xx = np.mgrid[0:n, 0:n]
    fits.write(os.path.join(d, "opsf.fits"), np.exp(-((xx - n // 2) ** 2 + 1.5 * (yy - n // 2) ** 2) / (2.0 * s ** 2)))
    r = "%d:%d,%d:%d" % (x1 + off[0], x2 + off[0], y1 + off[1], y2 + off[1])
    return ["--overpsf", "opsf.fits", "--overpsf_scale", s, "--overpsf_region", r]


def star(c, form):
    """Another spelling of the section which covers the same pixels."""
    ox, oy, px, py = c["sec"]
    x = "*" if form & 1 and ox == px == 0 else "%d:%d" % (ox + 1, ox + c["nx"])
    y = "*" if form & 2 and oy == py == 0 else "%d:%d" % (oy + 1, oy + c["ny"])
    return "[%s,%s]" % (x, y)


def pair(ctx, c, full_text, cut_text, P):
    """Writes both versions; returns [(directory, data argument, options, offset)] for section and cut-out."""
    out = []
    for k in range(2):
        d = ctx.newdir()
        cc = c if k == 0 else dict(c, sec=None)
        data, opts = F.files(d, cc, P)
        off = P.off if k == 0 else (0, 0)
        opts = opts + over_options(d, c, off)
        open(os.path.join(d, "c.dat"), "w").write(full_text if k == 0 else cut_text)
        if k == 0 and c.get("starname"):
            data = "data.fits" + star(c, c["starname"])
        out.append((d, data, opts, off))
    return out


def number_match(what, full, cut, off, tol):
    require(abs(full - cut - off) <= tol, "%s: %r with the section, %r for the cut-out (offset %d)", what, full, cut, off)


def compare_params(what, a, b, off):
    """Parameter listings (saved or printed): equal, with centres shifted."""
    la, lb = F.body_lines(a), F.body_lines(b)
    require(len(la) == len(lb), "%s: %d and %d parameter lines", what, len(la), len(lb))
    for x, y in zip(la, lb):
        t = x.split()
        if t[0] in ("X0", "Y0"):
            u = y.split()
            require(t[0] == u[0], "%s: %r / %r", what, x, y)
            number_match("%s: %s" % (what, t[0]), float(t[1]), float(u[1]), off[0] if t[0] == "X0" else off[1], 1.01e-4)
            require(t[2:] == u[2:], "%s: %r with the section, %r for the cut-out", what, x, y)
        else:
            require(x == y, "%s: %r with the section, %r for the cut-out", what, x, y)


STATLINE = re.compile(r"^(?:\s*(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = .*|Reduced Chi.*|AIC = .*|.*INITIAL FIT STAT.*|.*FINAL FIT STAT.*|\s*Fit statistic.*)$", re.M | re.I)


def stats_lines(out):
    return [l.strip() for l in STATLINE.findall(out)]


def run_fit(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    dyadic(c, P)
    P.off = tuple(c["sec"][:2])
    full_text = F.start_config(c, P)
    cutP = F.Problem(); cutP.__dict__.update(P.__dict__); cutP.off = (0, 0)
    cut_text = F.start_config(c, cutP)
    res = []
    save = [] if c["sol"] == ["--fitstat-only"] else ["--save-params", "p.dat"]
    save += ["--save-model", "m.fits", "--save-residual", "r.fits", "--save-weights", "w.fits"]
    boot = ["--bootstrap", str(c["boot"]), "--save-bootstrap", "boot.dat"] if c["boot"] else []
    for d, data, opts, off in pair(ctx, c, full_text, cut_text, P):
        q = ctx.run("imfit", [data, "-c", "c.dat", "--max-threads", "1", "--seed", "11"] + opts + c["sol"] + save + boot, d, cpu=8)
        if q.timeout:
            raise Skip("slow fit")
        require(not q.crashed, "imfit crashed: %s", q.tail())
        res.append((d, q, data))
    what = "imfit %s, %s, section %s" % (" ".join(c["sol"]) or "LM", c["kind"], res[0][2])
    a, b = res[0][1], res[1][1]
    require(a.rc == b.rc, "%s: exit status %d with the section, %d for the cut-out\n%s\n%s", what, a.rc, b.rc, a.tail(), b.tail())
    if a.rc:
        raise Skip("refused")
    sa, sb = stats_lines(a.out), stats_lines(b.out)
    require(sa == sb, "%s: statistics %s with the section, %s for the cut-out", what, sa, sb)
    require(len(sa) > 0, "%s: no statistics printed\n%s", what, a.out[-1000:])
    for n in ("m.fits", "r.fits", "w.fits"):
        fa, fb = os.path.join(res[0][0], n), os.path.join(res[1][0], n)
        require(os.path.exists(fa) == os.path.exists(fb), "%s: %s is saved for one of section and cut-out only", what, n)
        if os.path.exists(fa):
            x, y = fits.read(fa)[0], fits.read(fb)[0]
            require(x.shape == y.shape == (c["ny"], c["nx"]), "%s: %s has shapes %s, %s", what, n, x.shape, y.shape)
            require(np.array_equal(x, y, equal_nan=True), "%s: %s differs between section and cut-out by up to %g", what, n, float(np.nanmax(np.abs(x - y))))
    if save[0] == "--save-params":
        ta, tb = (open(os.path.join(r[0], "p.dat")).read() for r in res)
        compare_params(what + ", saved parameters", ta, tb, P.off)
        if re.search(r"^AIC = ", a.out, re.M):
            compare_params(what + ", printed parameters", F.BLOCK.search(a.out).group(1).split("*** Now")[0] if not boot else ta, F.BLOCK.search(b.out).group(1) if not boot else tb, P.off)
    if boot:
        rows = []
        for r in res:
            p = os.path.join(r[0], "boot.dat")
            require(os.path.exists(p), "%s: no bootstrap file", what)
            rows.append([l.split() for l in open(p) if l.strip() and not l.startswith("#")])
        require(len(rows[0]) == len(rows[1]), "%s: %d and %d bootstrap rows", what, len(rows[0]), len(rows[1]))
        for x, y in zip(*rows):
            require(len(x) == len(y) == len(P.kinds), "%s: bootstrap row has %d, %d values", what, len(x), len(y))
            for s, t, k in zip(x, y, P.kinds):
                if k in ("x", "y"):
                    number_match("%s: bootstrap row, %s" % (what, k), float(s), float(t), P.off[0] if k == "x" else P.off[1], 2e-6 * (abs(float(s)) + abs(float(t)) + 1))
                else:
                    require(s == t, "%s: bootstrap row has %s with the section, %s for the cut-out", what, s, t)
        ctx.note(tag="bootstrap")
    ctx.note(nontrivial=P.off != (0, 0), tag=" ".join(c["sol"]) or "lm")
    for k in ("over", "psf"):
        if c[k]:
            ctx.note(tag=k)
    if P.mask is not None:
        ctx.note(tag="mask")
    if P.err is not None:
        ctx.note(tag="noise image")


# -- MCMC chains
@st.composite
def mcmc_case(draw):
    c = draw(scene(maxn=8, total=2, limits="all", fixed=0.5, stats=["data", "sigma", "cash", "pmlr", "model"]))
    c["seed2"] = draw(st.integers(1, 1000))
    return c


def run_mcmc(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    dyadic(c, P)
    P.off = tuple(c["sec"][:2])
    full_text = F.start_config(c, P)
    cutP = F.Problem(); cutP.__dict__.update(P.__dict__); cutP.off = (0, 0)
    res = []
    for d, data, opts, off in pair(ctx, c, full_text, F.start_config(c, cutP), P):
        q = ctx.run("imfit-mcmc", [data, "-c", "c.dat", "--max-threads", "1", "--seed", c["seed2"], "-o", "ch", "--max-chain-length", "40", "--burnin-length", "15", "--nchains", "4"] + opts, d, cpu=8)
        if q.timeout:
            raise Skip("slow")
        require(not q.crashed, "imfit-mcmc crashed: %s", q.tail())
        res.append((d, q))
    what = "imfit-mcmc, %s, section %s" % (c["kind"], F.sect(c))
    require(res[0][1].rc == res[1][1].rc, "%s: exit status %d with the section, %d for the cut-out: %s\n%s", what, res[0][1].rc, res[1][1].rc, res[0][1].tail(), res[1][1].tail())
    if res[0][1].rc:
        raise Skip("refused")
    n = len(P.kinds)
    for k in range(1, 5):
        t = [[l.split() for l in open(os.path.join(r[0], "ch.%d.txt" % k)) if not l.startswith("#")] for r in res]
        require(len(t[0]) == len(t[1]) and len(t[0]) > 0, "%s: chain %d has %d rows with the section, %d for the cut-out", what, k, len(t[0]), len(t[1]))
        for i, (x, y) in enumerate(zip(*t)):
            require(len(x) == len(y), "%s: chain %d row %d: %d and %d columns", what, k, i, len(x), len(y))
            for j, (s, u) in enumerate(zip(x, y)):
                kd = P.kinds[j] if j < n else ""
                if kd in ("x", "y"):
                    number_match("%s: chain %d, row %d, parameter %d" % (what, k, i, j), float(s), float(u), P.off[0] if kd == "x" else P.off[1], 2e-9 * (abs(float(s)) + abs(float(u)) + 1))
                else:
                    require(s == u, "%s: chain %d, row %d, column %d: %s with the section, %s for the cut-out", what, k, i, j, s, u)
    ctx.note(nontrivial=P.off != (0, 0), tag="mcmc")
    if c["over"]:
        ctx.note(tag="over")


# -- equivalent spellings
@st.composite
def form_case(draw):
    nx, ny = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    x1, y1 = draw(st.one_of(st.just(1), st.integers(1, nx))), draw(st.one_of(st.just(1), st.integers(1, ny)))
    x2, y2 = draw(st.one_of(st.just(nx), st.integers(x1, nx))), draw(st.one_of(st.just(ny), st.integers(y1, ny)))
    return dict(nx=nx, ny=ny, sec=[x1, x2, y1, y2], hdu=draw(st.sampled_from(["primary", "primary", "ext", "named"])), seed=draw(st.integers(0, 10 ** 6)),
                mask=draw(st.booleans()), extra=draw(st.sampled_from(["mask", "noise"])))


def run_forms(ctx, c):
    """Every spelling of a section gives the statistic computed here for that section, in full-image coordinates."""
    nx, ny = c["nx"], c["ny"]
    x1, x2, y1, y2 = c["sec"]
    r = np.random.default_rng(c["seed"])
    big = np.round(r.uniform(1, 50, (ny, nx)) * 16) / 16
    mask = np.where(r.random((ny, nx)) < 0.2, 1.0, 0.0)
    d = ctx.newdir()
    p = os.path.join(d, "data.fits")
    if c["hdu"] == "primary":
        fits.write(p, big); ext = ["", "[0]"]
    else:
        other = fits.hdu(np.zeros((3, 3)), -32, primary=True)
        h = fits.hdu(big, -64, primary=False, extname="SCI")
        open(p, "wb").write(other + h)
        ext = ["[1]"] if c["hdu"] == "ext" else ["[SCI]", "[sci]", "[SCI,1]"][:2]
    fits.write(os.path.join(d, "mask.fits"), mask)
    # a model which tells its columns and rows: a tilted plane centred at (X0, Y0) of the full image
    open(os.path.join(d, "c.dat"), "w").write("X0 3\nY0 5\nFUNCTION TiltedSkyPlane\nI_0 10\nm_x 0.5\nm_y 0.125\n")
    yy, xx = np.mgrid[1:ny + 1, 1:nx + 1]
    model = 10 + 0.5 * (xx - 3) + 0.125 * (yy - 5)
    good = (mask == 0) if c["mask"] else np.ones_like(mask, bool)
    cut = np.s_[y1 - 1:y2, x1 - 1:x2]
    if not good[cut].any():
        raise Skip("all masked")
    want = float((((big - model) ** 2 / big)[cut][good[cut]]).sum())
    wholex, wholey = (x1, x2) == (1, nx), (y1, y2) == (1, ny)
    xs = ["%d:%d" % (x1, x2)] + (["*"] if wholex else [])
    ys = ["%d:%d" % (y1, y2)] + (["*"] if wholey else [])
    forms = ["[%s,%s]" % (a, b) for a in xs for b in ys] + ([""] if wholex and wholey else []) + ["[ %s , %s ]" % (xs[0], ys[0]), "[%s, %s]" % (xs[0], ys[0])]
    ms = "[%d:%d,%d:%d]" % (x1, x2, y1, y2)
    outs = []
    for e in ext:
        for f in forms:
            n = "data.fits" + e + f
            q = ctx.run("imfit", [n, "-c", "c.dat", "--fitstat-only", "--max-threads", "1", "--save-model", "m.fits"] + (["--mask", "mask.fits" + ms] if c["mask"] else []), d)
            require(not q.crashed, "imfit %s crashed: %s", n, q.tail())
            if q.rc and " " in f:
                require(not re.search("CHI-SQUARE", q.out), "imfit %r: exit status %d after printing a result", n, q.rc)
                continue            # blanks need not be accepted
            require(q.rc == 0, "imfit %s is refused: %s", n, q.tail())
            m = re.findall(r"CHI-SQUARE = (\S+)", q.out)
            require(len(m) == 1 and abs(float(m[0]) - want) <= 1e-6 + 1e-9 * want, "imfit %s: chi^2 %s, for these pixels it is %.8f", n, m, want)
            im = fits.read(os.path.join(d, "m.fits"))[0]
            require(im.shape == (y2 - y1 + 1, x2 - x1 + 1) and np.allclose(im, model[cut], rtol=3e-7, atol=0), "imfit %s: saved model image is not the model of these pixels", n)
            os.remove(os.path.join(d, "m.fits"))
            outs.append(n)
    ctx.note(nontrivial=not (wholex and wholey) or len(outs) > 2, tag=c["hdu"])
    ctx.note(tag="*" if wholex or wholey else "ranges")


# -- malformed and outside
def bad_sections(c):
    nx, ny, x1, x2, y1, y2, k, j = (c[n] for n in ("nx", "ny", "x1", "x2", "y1", "y2", "k", "j"))
    X, Y = "%d:%d" % (x1, x2), "%d:%d" % (y1, y2)
    return {
        "x reversed": "[%d:%d,%s]" % (x2 + 1, x1, Y), "y reversed": "[%s,%d:%d]" % (X, y2 + 1, y1),
        "x beyond": "[%d:%d,%s]" % (x1, nx + k, Y), "y beyond": "[%s,%d:%d]" % (X, y1, ny + k), "x outside": "[%d:%d,%s]" % (nx + k, nx + k + j, Y), "y outside": "[%s,%d:%d]" % (X, ny + k, ny + k + j),
        "x zero": "[0:%d,%s]" % (x2, Y), "y zero": "[%s,0:%d]" % (X, y2), "x negative": "[-%d:%d,%s]" % (k, x2, Y), "y negative": "[%s,-%d:%d]" % (X, k, y2),
        "x step": "[%s:%d,%s]" % (X, j + 1, Y), "y step": "[%s,%s:%d]" % (X, Y, j + 1), "one axis": "[%s]" % X, "three axes": "[%s,%s,1:1]" % (X, Y), "empty": "[]", "no numbers": "[:,:]",
        "half open x": "[:%d,%s]" % (x2, Y), "half open y": "[%s,%d:]" % (X, y1), "no colon": "[%d,%d]" % (x1, y1) if False else "[%d:%d,%d]" % (x1, x2, y1), "star range": "[*:%d,%s]" % (x2, Y), "flip": "[-*,%s]" % Y, "flip y": "[%s,-*]" % X,
        "unclosed": "[%s,%s" % (X, Y), "letters": "[a:b,%s]" % Y, "letters y": "[%s,a:b]" % X, "fraction": "[1.5:%d,%s]" % (x2, Y), "one star": "[*]", "junk": "[%s;%s]" % (X, Y), "trailing colon": "[%s:,%s]" % (X, Y), "no comma": "[%s%s]" % (X, Y), "huge": "[1:99999999999,%s]" % Y,
    }


KINDS = sorted(bad_sections(dict(nx=5, ny=5, x1=1, x2=2, y1=1, y2=2, k=1, j=1)))


@st.composite
def bad_case(draw):
    nx, ny = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    x1, y1 = draw(st.integers(1, nx - 1)), draw(st.integers(1, ny - 1))
    return dict(nx=nx, ny=ny, x1=x1, x2=draw(st.integers(x1, nx - 1)), y1=y1, y2=draw(st.integers(y1, ny - 1)), k=draw(st.sampled_from([1, 1, 2, 7, 300])), j=draw(st.sampled_from([1, 2, 3])), kind=draw(st.sampled_from(KINDS)),
                mode=draw(st.sampled_from(["fitstat", "fit", "mcmc", "multimfit"])))


def run_bad(ctx, c):
    sec = bad_sections(c)[c["kind"]]
    r = np.random.default_rng(3)
    d = ctx.newdir()
    fits.write(os.path.join(d, "data.fits"), r.uniform(5, 50, (c["ny"], c["nx"])))
    open(os.path.join(d, "c.dat"), "w").write("X0 3 1,9\nY0 5 1,9\nFUNCTION FlatSky\nI_sky 10 1,100\n")
    open(os.path.join(d, "info.dat"), "w").write("IMAGE_START\nDATA data.fits%s\n" % sec)
    n = "data.fits" + sec
    prog, args = {"fitstat": ("imfit", [n, "-c", "c.dat", "--fitstat-only", "--save-model", "m.fits"]), "fit": ("imfit", [n, "-c", "c.dat", "--save-params", "p.dat", "--save-model", "m.fits"]),
                  "mcmc": ("imfit-mcmc", [n, "-c", "c.dat", "-o", "ch", "--max-chain-length", "20", "--burnin-length", "10", "--seed", "1"]),
                  "multimfit": ("multimfit", ["-c", "c.dat", "--image-info", "info.dat"])}[c["mode"]]
    before = set(os.listdir(d))
    q = ctx.run(prog, args, d)
    require(not q.crashed, "%s with %s crashed: %s", prog, n, q.tail())
    require(q.rc != 0, "%s accepts %s of a %d x %d image:\n%s", prog, n, c["nx"], c["ny"], q.tail())
    require((q.err + q.out).strip(), "%s refuses %s without a message", prog, n)
    new = set(os.listdir(d)) - before
    require(not new, "%s refuses %s but leaves %s", prog, n, sorted(new))
    ctx.note(nontrivial=True, tag=c["kind"])
    ctx.note(tag=c["mode"])


CHECK = dict(
    property="P14", needs={"opt": (("imfit", "imfit-mcmc", "multimfit"), True)},
    rule="a case is a generated scene embedded at a random offset in a larger image of unrelated values, fitted (or evaluated, bootstrapped, sampled) from the section and from a file with the cut-out; or one section in all its spellings; or one malformed section. Non-trivial when the section does not start at pixel (1,1) / when several spellings were compared / always for malformed ones",
    assumptions=["centres and limits are multiples of 1/64, so that adding the offset is exact and both runs must agree digit for digit",
                 "sections containing blanks may be refused, but must not be misread",
                 "only the section of the data image is judged for validity; mask and noise images need matching dimensions"],
    components=[
        Component("fit", fitcase(), run_fit, 260, 12000),
        Component("mcmc", mcmc_case(), run_mcmc, 60, 2500),
        Component("forms", form_case(), run_forms, 60, 2500),
        Component("bad", bad_case(), run_bad, 200, 4000),
    ])
