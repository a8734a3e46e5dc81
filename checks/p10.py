"""P10: configuration files are read back exactly as written."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, layout, models as M, ref
from imv.harness import Component, Violation, Skip, require, close

LABELCH = "abcXYZ09 _-+.,:;()[]#'\"/=*é"


@st.composite
def labels(draw, n):
    out = {}
    for j in range(n):
        if draw(st.booleans()):
            t = draw(st.one_of(st.sampled_from(["a", "X", "disk", "outer disk", "X0", "FUNCTION Sersic", "Y0 3.0", "# 2", "OPTIONAL_PARAMS_START", "bulge # old"]),
                               st.text(LABELCH, min_size=1, max_size=20))).strip()
            if t and "LABEL" not in t:
                out[str(j)] = t
    return out


OPTN = ["method", "floor", "X0_ref", "FUNCTIONS", "name_1", "OPTIONAL", "n"]
OPTV = ["bicubic", "lanczos2", "0.5", "-3e4", "true", "X0", "/a/b.fits", "FUNCTION", "1,2"]


@st.composite
def limits(draw, p):
    out = []
    for v in p:
        k = draw(st.integers(0, 5))
        if k == 0:
            out.append("fixed")
        elif k <= 2:
            a, b = draw(gens.logfl(1e-3, 100)), draw(gens.logfl(1e-3, 100))
            lo, hi = draw(st.sampled_from([(v - a, v + b), (v, v + b), (v - a, v)]))
            out.append((lo, hi) if lo < hi and lo <= v <= hi else None)
        else:
            out.append(None)
    return out


HEAD = [["GAIN", "4.5"], ["READNOISE", "0.7"], ["EXPTIME", "100"], ["NCOMBINED", "3"], ["ORIGINAL_SKY", "12.5"], ["NCOLS", "20"], ["NROWS", "7"], ["SOMETHING", "else"],
        ["Gain", "3"], ["PSF", "X0"], ["Y0", "4"], ["title", "of", "this"], ["STANDALONE"], ["NAME1", "1"]]


@st.composite
def feats(draw):
    return sorted(draw(st.sets(st.sampled_from(layout.FEATURES), max_size=len(layout.FEATURES))))


@st.composite
def case(draw):
    sets = draw(gens.model(20, 20, max_sets=3, max_funcs=3, names=list(ref.SPEC) + ["PointSource"]))
    nf = sum(len(s[2]) for s in sets)
    p = gens.flat_params(sets)
    opts = {}
    for j in range(nf):
        if draw(st.integers(0, 3)) == 0:
            opts[str(j)] = draw(st.lists(st.tuples(st.sampled_from(OPTN), st.sampled_from(OPTV)).map(list), max_size=3, unique_by=lambda t: t[0]))
    return dict(sets=sets, limits=draw(limits(p)) if draw(st.booleans()) else None, labels=draw(labels(nf)), opts=opts,
                header=draw(st.lists(st.sampled_from(HEAD), max_size=5)), lseed=draw(st.integers(0, 10**6)), feats=draw(feats()))


def limrow(l):
    return [0, 0, 0, 0, 0] if l is None else [1, 0, 0, 0, 0] if l == "fixed" else [0, 1, 1, float(l[0]), float(l[1])]


def run_parse(ctx, c):
    txt = layout.write(c)
    w = ctx.worker()
    names = [f[0] for s in c["sets"] for f in s[2]]
    p = gens.flat_params(c["sets"])
    starts, n = [], 0
    for s in c["sets"]:
        starts.append(n)
        n += len(s[2])
    head = [h for h in c["header"] if len(h) == 2]
    for mode in (0, 1):
        r = w.call("parse", mode, 1, txt.encode())
        require(r[0] == 0, "a valid configuration file was rejected (status %d, mode %d):\n%s", r[0], mode, txt)
        _, found, nopt, nm, lb, ex, op, par, lims, sts = r
        dec = lambda b: b.decode() if isinstance(b, bytes) else b
        nm, lb, ex, op = dec(nm).split("\n")[:-1], dec(lb).split("\n")[:-1], dec(ex), dec(op).split("\n")[:-1]
        require(nm == names, "functions read %s, written %s:\n%s", nm, names, txt)
        want = [c["labels"].get(str(j), "") for j in range(n)]
        require(lb == want, "labels read %r, written %r:\n%s", lb, want, txt)
        require(list(map(int, sts)) == starts, "function sets start at %s, written %s:\n%s", list(sts), starts, txt)
        require(len(par) == len(p) and all(float(a) == float(b) for a, b in zip(par, p)), "parameter values read %s, written %s:\n%s", list(par), p, txt)
        ops = [x.split("\t") for x in op]
        require(ops == [[str(a), str(b)] for a, b in head] and nopt == len(head), "image options read %s, written %s:\n%s", ops, head, txt)
        exs = [dict(kv.split("\t") for kv in blk.split("\n") if kv) for blk in ex.split("--\n")[:-1]]
        wx = [dict(c["opts"].get(str(j)) or []) for j in range(n)]
        require(exs == wx, "optional parameters read %s, written %s:\n%s", exs, wx, txt)
        if mode == 1:
            L = c["limits"] or [None] * len(p)
            want = [limrow(l) for l in L]
            got = np.array(lims).reshape(-1, 5).tolist()
            require(got == want, "limits read %s, written %s:\n%s", got, want, txt)
            require(bool(found) == any(l is not None for l in L), "limits-found flag %s:\n%s", found, txt)
    ctx.note(nontrivial=len(c["feats"]) > 0, tag="sets:%d" % len(c["sets"]))
    for f in c["feats"]:
        ctx.note(tag=f)


# ---- what is written is what is computed: makeimage ----------------------------------------------------------------
@st.composite
def mk_case(draw):
    nx, ny = draw(st.integers(1, 14)), draw(st.integers(1, 14))
    sets = draw(gens.model(nx, ny, names=gens.FAST, max_sets=3, max_funcs=2))
    nf = sum(len(s[2]) for s in sets)
    return dict(nx=nx, ny=ny, sets=sets, limits=draw(limits(gens.flat_params(sets))), labels=draw(labels(nf)), opts={}, lseed=draw(st.integers(0, 10**6)), feats=draw(feats()),
                cols=draw(st.sampled_from(["NCOLS", "NCOLUMNS"])), order=draw(st.booleans()))


def run_mk(ctx, c):
    d = ctx.newdir()
    w = ctx.worker()
    h = [[c["cols"], str(c["nx"])], ["NROWS", str(c["ny"])]]
    txt = layout.write(dict(c, header=h[::-1] if c["order"] else h))
    open(os.path.join(d, "c.dat"), "w").write(txt)
    r = ctx.run("makeimage", ["c.dat", "-o", "out.fits", "--max-threads", "1"], d)
    require(r.rc == 0, "makeimage failed on\n%s\n%s", txt, r.tail())
    img = fits.read(os.path.join(d, "out.fits"))[0]
    require(img.shape == (c["ny"], c["nx"]), "image of shape %s, configuration says %dx%d:\n%s", img.shape, c["nx"], c["ny"], txt)
    M.setup(w, 1, c["nx"], c["ny"], gens.config(c["sets"]))
    ref_ = M.image(w, 1, gens.flat_params(c["sets"]), c["nx"], c["ny"])
    M.free(w, 1)
    close(img, ref_.astype(np.float32), 3e-7, 1e-37, "makeimage output for\n%s\n" % txt)
    ctx.note(nontrivial=len(c["feats"]) > 0, tag="makeimage")


# ---- imfit: image options, start values, fixed flags, limits -------------------------------------------------------
FITF = ["Exponential", "Sersic", "Gaussian", "FlatSky", "Moffat"]
FK = {"I": gens.fl(20, 200), "S": gens.fl(-5, 5), "R": gens.fl(1.5, 4), "ell": gens.fl(0.1, 0.6), "PA": gens.fl(10, 170), "sersicn": gens.fl(0.7, 3), "beta": gens.fl(1.5, 4)}


@st.composite
def fit_case(draw):
    nx, ny = draw(st.integers(8, 13)), draw(st.integers(8, 13))
    sets = draw(gens.model(nx, ny, names=FITF, max_sets=2, max_funcs=2, kinds=FK, margin=-2, total=3))
    nf = sum(len(s[2]) for s in sets)
    p = gens.flat_params(sets)
    lab = gens.param_labels(sets)
    lim, truth = [], []
    for v, nme in zip(p, lab):
        s = 0.4 if nme in ("X0", "Y0") else (0.05 if nme.startswith("ell") else max(0.05 * abs(v), 0.02))
        k = draw(st.integers(0, 3))
        sg = draw(st.sampled_from([-1, 1]))
        lim.append("fixed" if k == 0 else (float("%.6g" % (v - s / 4)), float("%.6g" % (v + s / 4))) if k < 3 else None)
        truth.append(v + sg * s)
    lim = [l if l is None or l == "fixed" or l[0] < l[1] and l[0] <= v <= l[1] else None for l, v in zip(lim, p)]
    if all(l == "fixed" for l in lim):
        lim[0] = None
    ch = {}
    for k, s in (("GAIN", gens.fl(0.5, 5)), ("READNOISE", gens.fl(0, 10)), ("EXPTIME", gens.fl(1, 500)), ("NCOMBINED", st.integers(1, 5)), ("ORIGINAL_SKY", gens.fl(20, 200))):
        if draw(st.booleans()):
            ch[k] = draw(s)
    return dict(nx=nx, ny=ny, sets=sets, truth=truth, limits=lim, labels=draw(labels(nf)), opts={}, ch=ch, lseed=draw(st.integers(0, 10**6)), feats=draw(feats()), fit=draw(st.integers(0, 2)) == 0)


def run_fit(ctx, c):
    d = ctx.newdir()
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    M.setup(w, 1, nx, ny, gens.config(c["sets"]))
    data = np.round(M.image(w, 1, c["truth"], nx, ny), 3) + 30.0
    M.free(w, 1)
    if not np.isfinite(data).all():
        raise Skip("overflow")
    fits.write(os.path.join(d, "data.fits"), data)
    hdr = [[k, "%d" % v if k == "NCOMBINED" else repr(float(v))] for k, v in c["ch"].items()]
    txt = layout.write(dict(c, header=hdr))
    open(os.path.join(d, "c.dat"), "w").write(txt)
    ch = [c["ch"].get("GAIN", 1.0), c["ch"].get("READNOISE", 0.0), c["ch"].get("EXPTIME", 1.0), c["ch"].get("NCOMBINED", 1), c["ch"].get("ORIGINAL_SKY", 0.0)]
    r = ctx.run("imfit", ["data.fits", "-c", "c.dat", "--fitstat-only", "--max-threads", "1"], d)
    require(r.rc == 0, "imfit --fitstat-only failed on\n%s\n%s", txt, r.tail())
    g = re.findall(r"^\s*CHI-SQUARE = (\S+)\s+\((-?\d+) DOF\)", r.out, re.M)
    require(len(g) == 1, "no CHI-SQUARE line")
    M.setup(w, 1, nx, ny, gens.config(c["sets"]), data=data, chars=ch)
    p = gens.flat_params(c["sets"])
    want = w.call("mstatval", 1, p)[0]
    M.free(w, 1)
    nfree = sum(l != "fixed" for l in c["limits"])
    require(abs(float(g[0][0]) - want) <= 1e-9 * abs(want) + 1e-6, "chi^2 of the written start values %s, expected %.8f, for\n%s", g[0][0], want, txt)
    require(int(g[0][1]) == nx * ny - nfree, "%s degrees of freedom, expected %d (%d free parameters), for\n%s", g[0][1], nx * ny - nfree, nfree, txt)
    if c["fit"]:
        r = ctx.run("imfit", ["data.fits", "-c", "c.dat", "--max-threads", "1", "--save-params", "best.dat"], d)
        require(r.rc == 0, "imfit failed on\n%s\n%s", txt, r.tail())
        best = []
        for l in open(os.path.join(d, "best.dat")):
            t = l.split("#")[0].split()
            if len(t) >= 2 and t[0] not in ("FUNCTION", "GAIN", "READNOISE", "EXPTIME", "NCOMBINED", "ORIGINAL_SKY"):
                best.append((t[0], float(t[1])))
        require(len(best) == len(p), "%d parameters saved, %d written", len(best), len(p))
        for (nme, b), v, l in zip(best, p, c["limits"]):
            tol = 6e-5 if nme in ("X0", "Y0") else 6e-6 * abs(b) + 1e-12
            if l == "fixed":
                require(abs(b - v) <= tol, "parameter %s was written as fixed at %r but is %r after the fit; configuration\n%s", nme, v, b, txt)
            elif l is not None:
                require(l[0] - tol <= b <= l[1] + tol, "parameter %s was given limits %s but is %r after the fit; configuration\n%s", nme, l, b, txt)
    ctx.note(nontrivial=any(l is not None for l in c["limits"]), tag="fit" if c["fit"] else "fitstat")


CHECK = dict(
    property="P10", needs={"opt": (("imfit", "makeimage"), True)},
    rule="a case is a model of 1-3 function sets of 1-3 functions with limits, fixed flags, labels, optional parameters and image options, written with a random layout (blank lines, comment lines, trailing comments with keywords in them, tabs, indentation, number formats, missing final newline ...); non-trivial when at least one layout feature is on (parse, makeimage) or one limit is present (imfit)",
    assumptions=["words after the limits of a parameter line are ignored, as the documentation says nothing about them", "labels do not themselves contain the word LABEL"],
    components=[
        Component("parse", case(), run_parse, 5000, 500000),
        Component("makeimage", mk_case(), run_mk, 600, 25000),
        Component("imfit", fit_case(), run_fit, 300, 20000),
    ])
