"""P03: reported total fluxes equal the integrated light of each component."""
import os, re, math
import numpy as np
from scipy import special
from hypothesis import strategies as st
from imv import ref, gens, models as M
from imv.harness import Component, require, close, Violation

INTENS = {"I": 1, "S": 1}
# parameters an intensity scales with (slopes of the tilted plane are part of a background and carry no flux)
def is_intensity(name, k):
    return ref.SPEC[name][k][1] in ("I", "S")


def bn_gamma_flux(n, Ie, re, q):
    b = float(ref.bn(n))
    return q * 2 * math.pi * n * Ie * re * re * math.exp(b - 2 * n * math.log(b) + special.gammaln(2 * n))


def plane_integral(name, p):
    """Integral of the profile over the whole plane, None when there is no closed form known here."""
    if name == "Exponential":
        return 2 * math.pi * p[2] * p[3] ** 2 * (1 - p[1])
    if name == "Gaussian":
        return 2 * math.pi * p[2] * p[3] ** 2 * (1 - p[1])
    if name == "Sersic":
        return bn_gamma_flux(p[2], p[3], p[4], 1 - p[1])
    if name == "Moffat" and p[4] > 1:
        al = 0.5 * p[3] / math.sqrt(2 ** (1 / p[4]) - 1)
        return math.pi * al ** 2 * p[2] * (1 - p[1]) / (p[4] - 1)
    area = None
    if name in ("Exponential_GenEllipse", "Sersic_GenEllipse", "FerrersBar2D"):
        e = p[2] + 2
        # area of the unit superellipse |x|^e + |y/q|^e = 1
        area = 4 * (1 - p[1]) * math.exp(2 * special.gammaln(1 + 1 / e) - special.gammaln(1 + 2 / e))
        if name == "Exponential_GenEllipse":
            return area * 2 * p[3] * p[4] ** 2
        if name == "Sersic_GenEllipse":
            return area / math.pi * bn_gamma_flux(p[3], p[4], p[5], 1.0)
        return area * p[4] * p[5] ** 2 / (p[3] + 1)
    if name == "EdgeOnRing":
        return p[1] * 2 * math.sqrt(2 * math.pi) * p[3] * math.sqrt(2 * math.pi) * p[4]
    return None


@st.composite
def case(draw, names=gens.FAST, maxn=40):
    xs, ys = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    sets = draw(gens.model(xs, ys, names=names, max_sets=3, max_funcs=3, total=5))
    return dict(xs=xs, ys=ys, sets=sets, sub=draw(st.booleans()), k=draw(gens.logfl(0.1, 100, (2,))), move=[draw(gens.fl(-20, 60)), draw(gens.fl(-20, 60))],
                before=draw(st.sampled_from(["none", "image", "single"])), th=draw(st.sampled_from([1, 2, 3])))


def run_model(ctx, c):
    w = ctx.worker()
    xs, ys, sets, sub = c["xs"], c["ys"], c["sets"], c["sub"]
    p = M.setup(w, 1, 5, 4, gens.config(sets), subsample=sub, threads=c["th"])
    if c["before"] == "image":
        M.image(w, 1, p, 5, 4)
    elif c["before"] == "single":
        M.single(w, 1, p, 0, 5, 4)
    tot, ind = w.call("mflux", 1, xs, ys, p)
    want, exact = [], []
    fs = [f for s in sets for f in s[2]]
    for f in fs:
        n, q = f
        if n in ref.BACKGROUND:
            want.append(0.0); exact.append(True)
            continue
        can, tf = w.call("fval", int(sub), 1.0, 0.0, 1.0, n.encode(), q, [0.0, 0.0], [1.0, 1.0])[:2]
        if can:
            pi = plane_integral(n, q)
            require(pi is not None, "%s claims a closed-form flux that the check does not know", n)
            want.append(pi); exact.append(True)
            ctx.note(tag="closed:" + n)
        else:
            t = M.term(w, n, q, 0.5 * xs, 0.5 * ys, xs, ys, sub)
            want.append(float(t.sum())); exact.append(False)
            ctx.note(tag="summed")
    S = sum(abs(v) for v in want)
    for k, (g, v) in enumerate(zip(ind, want)):
        require(abs(g - v) <= 1e-8 * abs(v) + 1e-250, "flux of component %d %s: reported %.12g, expected %.12g (%s)", k, fs[k], g, v, "closed form" if exact[k] else "pixel sum over %dx%d" % (xs, ys))
    require(abs(tot - math.fsum(ind)) <= 1e-10 * S + 1e-250, "total flux %.12g is not the sum of the components %s", tot, list(ind))
    # linear in the intensity parameters, independent of position
    kk = c["k"]
    sc = [[x + c["move"][0], y - c["move"][1], [[n, [v * kk if is_intensity(n, j) else v for j, v in enumerate(q)]] for n, q in s]] for x, y, s in sets]
    p2 = M.setup(w, 2, 5, 4, gens.config(sc), subsample=sub, threads=1)
    tot2, ind2 = w.call("mflux", 2, xs, ys, p2)
    close(ind2, ind * kk, 1e-9, 1e-250, "component fluxes after scaling intensities by %g and moving the centres" % kk)
    # repeatable, and independent of evaluations in between
    M.image(w, 1, p, 5, 4)
    tot3, ind3 = w.call("mflux", 1, xs, ys, p)
    close(ind3, ind, 1e-12, 1e-250, "component fluxes on second evaluation")
    M.free(w, 1); M.free(w, 2)
    ctx.note(nontrivial=S > 0)


@st.composite
def big(draw):
    """Compact components on a large estimation image: the pixel sum must approach the plane integral."""
    n = draw(st.sampled_from(["Moffat", "Exponential_GenEllipse", "Sersic_GenEllipse", "FerrersBar2D", "EdgeOnRing", "Gaussian", "Exponential", "Sersic"]))
    K = dict(R=gens.logfl(3, 6, (4,)), ell=gens.fl(0, 0.5, (0,)), sersicn=gens.logfl(0.5, 1.5, (1,)), beta=gens.logfl(3, 8), c0=gens.fl(-0.5, 1, (0,)), ferrersn=gens.fl(1, 4))
    p = draw(gens.func_params(n, K))
    return dict(f=n, p=p, size=draw(st.integers(160, 220)))


def run_big(ctx, c):
    w = ctx.worker()
    n, q = c["f"], c["p"]
    if n == "EdgeOnRing" and q[2] + 5 * q[3] > 60:
        from imv.harness import Skip
        raise Skip
    p = M.setup(w, 1, 5, 4, gens.config([[3.0, 2.0, [[n, q]]]]))
    tot, ind = w.call("mflux", 1, c["size"], c["size"], p)
    pi = plane_integral(n, q)
    require(abs(ind[0] - pi) <= 0.01 * pi, "%s%s: flux on a %d-pixel image %.8g, plane integral %.8g", n, q, c["size"], ind[0], pi)
    M.free(w, 1)
    ctx.note(nontrivial=True, tag=n)


@st.composite
def cli(draw):
    sets = draw(gens.model(30, 30, names=gens.FAST, max_sets=2, max_funcs=3, total=4))
    nf = sum(len(s[2]) for s in sets)
    return dict(sets=sets, size=draw(st.integers(1, 60)), zp=draw(st.one_of(st.none(), gens.fl(-30, 40, (0, 25, 26.24)))),
                labels=[draw(st.sampled_from(["", "", "disk", "the bulge"])) for _ in range(nf)], save=draw(st.sampled_from(["print", "save", "both", "image"])))


ROW = re.compile(r"^(\S+)\s+(\S+)\s+(---|-?[0-9.]+(?:e[-+]\d+)?)\s+(\S+)(?:    (.*))?$")


def parse_table(txt):
    rows = []
    on = False
    for l in txt.split("\n"):
        if "Component" in l and "Magnitude" in l and "Fraction" in l:
            on = True
            continue
        if on and l.strip():
            m = ROW.match(l.rstrip("\n"))
            if not m:
                break
            rows.append(m.groups())
            if m.group(1) == "Total":
                break
    return rows


def run_cli(ctx, c):
    d = ctx.newdir()
    sets = c["sets"]
    open(os.path.join(d, "c.dat"), "w").write(gens.config(sets, header=["NCOLS 12", "NROWS 9"], labels=c["labels"]))
    a = ["c.dat", "--estimation-size", c["size"]]
    if c["zp"] is not None:
        a += ["--zero-point", repr(c["zp"]) if c["zp"] >= 0 else repr(c["zp"])]
    if c["save"] in ("print", "both"):
        a.append("--print-fluxes")
    if c["save"] in ("save", "both", "image"):
        a += ["--save-fluxes", "fl.txt"]
    r = ctx.run("makeimage", a, d)
    require(r.rc == 0, "makeimage failed: %s", r.tail())
    tabs = []
    if c["save"] in ("print", "both"):
        tabs.append(("printed", parse_table(r.out)))
    if c["save"] != "print":
        tabs.append(("saved", parse_table(open(os.path.join(d, "fl.txt")).read())))
    w = ctx.worker()
    p = M.setup(w, 1, 12, 9, gens.config(sets), subsample=True)
    tot, ind = w.call("mflux", 1, c["size"], c["size"], p)
    M.free(w, 1)
    names = [f[0] for s in sets for f in s[2]] + ["Total"]
    vals = list(ind) + [tot]
    labs = c["labels"] + [""]
    require(tot > 0 or all(n in ref.BACKGROUND for n in names[:-1]) or tot == 0, "total %r", tot)
    for what, rows in tabs:
        require([x[0] for x in rows] == names, "%s flux table lists %s, model has %s\n%s", what, [x[0] for x in rows], names, r.out[-900:])
        for k, (n, fl, mag, fr, lab) in enumerate(rows):
            require(abs(float(fl) - vals[k]) <= 6e-5 * abs(vals[k]) + 1e-300, "%s flux of %s is %s, expected %.6g", what, n, fl, vals[k])
            if c["zp"] is None or not vals[k] > 0:
                require(mag == "---", "%s magnitude of %s is %s without zero point or flux", what, n, mag)
            else:
                want = c["zp"] - 2.5 * math.log10(vals[k])
                require(mag != "---" and abs(float(mag) - want) <= 2e-4, "%s magnitude of %s is %s, expected %.5f", what, n, mag, want)
            if tot > 0:
                f = vals[k] / tot
                require(abs(float(fr) - f) <= 6e-6 + 6e-4 * f * (f < 1e-4), "%s fraction of %s is %s, expected %.6g", what, n, fr, f)
            require((lab or "") == labs[k], "%s label of component %d is %r, expected %r", what, k, lab, labs[k])
    exists = os.path.exists(os.path.join(d, "modelimage.fits"))
    if c["save"] in ("print", "both"):
        require(not exists, "--print-fluxes alone wrote an image")
    ctx.note(nontrivial=tot > 0, tag=c["save"])
    ctx.note(tag="zp" if c["zp"] is not None else "nozp")


CHECK = dict(
    property="P03", needs={"opt": (("makeimage",), True)},
    rule="a case is a model (1-5 functions of all kinds), estimation-image dimensions, an intensity scale factor and new centres; non-trivial when the total flux is non-zero",
    assumptions=["the estimation image is 1-based with the component at half its size, as documented", "single-function values are decided by P02"],
    components=[
        Component("model", case(), run_model, 6000, 150000),
        Component("plane", big(), run_big, 240, 4000),
        Component("makeimage", cli(), run_cli, 900, 15000),
    ])
