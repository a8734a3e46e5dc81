"""P20: makeimage writes exactly the images it is asked for."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, ref, models as M
from imv.harness import Component, require, close, Skip
from checks import p09
from checks.p05 import rstr

F32 = 1.2e-7
TINY = 1e-37          # FITS images hold 32-bit numbers


def files_in(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


@st.composite
def sizes(draw, nx, ny):
    """Where the size comes from; the first of command line and configuration file counts, for each dimension, and a reference image only without them."""
    other = st.integers(1, 40)
    how = draw(st.sampled_from(["cli", "cli", "config", "config", "ref", "ref", "cli+config", "config+ref", "cli+ref", "mixed", "mixed"]))
    s = dict(how=how, cli=[None, None], cfg=[None, None], ref=None)
    if "cli" in how:
        s["cli"] = [nx, ny]
    if how == "mixed":
        k = draw(st.integers(0, 1))
        s["cli"][k] = [nx, ny][k]
        s["cfg"] = [draw(other) if s["cli"][0] else nx, draw(other) if s["cli"][1] else ny]
        if draw(st.booleans()):
            s["cfg"][k] = None
    if how in ("config", "config+ref"):
        s["cfg"] = [nx, ny]
    if how == "cli+config":
        s["cfg"] = [draw(st.one_of(st.none(), other)), draw(st.one_of(st.none(), other))]
    if how == "ref":
        s["ref"] = [nx, ny]
    elif how.endswith("+ref") or (how == "mixed" and draw(st.booleans())):
        s["ref"] = [draw(other), draw(other)]
    s["key"] = draw(st.sampled_from(["NCOLS", "NCOLUMNS"]))
    s["swap"] = draw(st.booleans())
    s["refkind"] = draw(st.sampled_from([-32, -64, 16, 8]))
    s["reftail"] = draw(st.booleans())
    return s


NAMES = ["model.fits", "m_1.fit", "noext", "sub/dir/m.fits", "./m.fits", "a model.fits", "./sub/x.fits", "expanded.fits"]
HEADERS = ["GAIN 4.5", "READNOISE 0.7", "ORIGINAL_SKY 130.14", "# NCOLS 3", "NCOLZ 7", "EXPTIME 3"]


@st.composite
def case(draw, mode=None):
    c = draw(p09.models(16))
    nf = sum(len(s[2]) for s in c["sets"])
    c["size"] = draw(sizes(c["nx"], c["ny"]))
    c["mode"] = mode or draw(st.sampled_from(["save"] * 6 + ["nosave", "print-fluxes", "timing", "timing+nosave"]))
    c["name"] = draw(st.sampled_from([None] + NAMES))
    c["root"] = draw(st.sampled_from([None, None, "mod", "sub/f_", "", "12-"]))
    if c["mode"] != "save" and not c["os"] and draw(st.integers(0, 3)) == 0:
        c["size"].update(how="none", cli=[None, None], cfg=[None, None], ref=None)          # no image, so no size needed
    c["exp"] = draw(st.sampled_from([False, False, True]))
    c["print"] = draw(st.sampled_from([False, False, False, True]))
    c["flux"] = draw(st.sampled_from([False, False, True]))
    c["old"] = draw(st.lists(st.sampled_from(["output", "functions", "expanded", "other"]), unique=True))
    c["labels"] = [draw(st.sampled_from(["", "", "bulge", "outer disc", "no_1"])) for _ in range(nf)]
    c["hdr"] = draw(st.lists(st.sampled_from(HEADERS), unique=True, max_size=2))
    c["lim"] = draw(st.booleans())
    c["th"] = draw(st.sampled_from([None, 1, 2, 5]))
    c["order"] = draw(st.integers(0, 2 ** 31))
    c["eq"] = draw(st.integers(0, 2 ** 31))
    return c


def config_text(c):
    p = gens.flat_params(c["sets"])
    s = c["size"]
    h = list(c["hdr"])
    d = [(s["key"], s["cfg"][0]), ("NROWS", s["cfg"][1])]
    for k, v in (d[::-1] if s["swap"] else d):
        if v is not None:
            h.append("%s  %d" % (k, v))
    return gens.config(c["sets"], header=h, labels=c["labels"], limits=[("fixed" if i % 3 == 0 else (v - 1 - abs(v), v + 1 + abs(v)) if i % 3 == 1 else None) for i, v in enumerate(p)] if c["lim"] else None)


def reference(d, s):
    if s["ref"]:
        r = np.random.default_rng(1)
        fits.write(os.path.join(d, "ref.fits"), np.floor(r.uniform(0, 100, (s["ref"][1], s["ref"][0]))), bitpix=s["refkind"])
        if s["reftail"]:
            with open(os.path.join(d, "ref.fits"), "ab") as f:
                f.write(fits.hdu(np.ones((3, 44)), primary=False, extname="OTHER"))
        return ["--refimage", "ref.fits"]
    return []


def options(d, c):
    """Option groups in a random order; values joined with '=' now and then."""
    a = []
    s = c["size"]
    for k, v in zip(("--ncols", "--nrows"), s["cli"]):
        if v is not None:
            a.append([k, str(v)])
    r = reference(d, s)
    if r:
        a.append(r)
    x = p09.cli_files(d, c)
    while x:
        if x[0] == "--overpsf":
            a.append(x[:6]); x = x[6:]
        elif x[0] == "--psf":
            a.append(x[:2]); x = x[2:]
        else:
            a.append(x[:1]); x = x[1:]
    if c["name"]:
        a.append([["-o", "--output"][c["eq"] % 2], c["name"]])
    if c["root"] is not None:
        a.append(["--output-functions", c["root"]])
    if c["exp"]:
        a.append(["--save-expanded"])
    if c["print"]:
        a.append(["--printimage"])
    if c["flux"]:
        a.append(["--save-fluxes", "fl.txt"])
        a.append(["--estimation-size", "6"])
    m = c["mode"]
    if "nosave" in m:
        a.append(["--nosave"])
    if m == "print-fluxes":
        a.append(["--print-fluxes"])
        a += [] if c["flux"] else [["--estimation-size", "6"]]
    if "timing" in m:
        a.append(["--timing", "2"])
    if c["th"]:
        a.append(["--max-threads", str(c["th"])])
    a.append(["c.dat"])
    r = np.random.default_rng(c["order"])
    over = [g for g in a if g[0] == "--overpsf"]
    rest = [g for g in a if g[0] != "--overpsf"]
    rest = [rest[i] for i in r.permutation(len(rest))]
    for g in over:                                          # the three oversampling options keep their order among themselves
        rest.append(g)
    k = int(r.integers(0, len(rest) + 1))
    rest = rest[k:] + rest[:k]
    if over and k > len(rest) - len(over):                  # the rotation would have reordered the regions
        rest = rest[len(rest) - k:] + rest[:len(rest) - k]
    out = []
    for g in rest:
        if len(g) == 2 and g[0].startswith("--") and g[1] and r.random() < 0.4:
            out.append(g[0] + "=" + g[1])
        else:
            out += g
    return out


def library(w, mid, c, sets=None):
    p = M.setup(w, mid, c["nx"], c["ny"], gens.config(sets or c["sets"]), psf=c["psf"], norm=c["norm"], subsample=c["sub"],
                osamp=[dict(psf=o["psf"], scale=o["scale"], region=rstr(o["reg"], (0, 0)), norm=c["norm"]) for o in c["os"]])
    return p


def flat(sets):
    return [(x, y, f) for x, y, fs in sets for f in fs]


def scale(w, c, p):
    """Size of FFT rounding errors: relative to the brightest point of the padded model and of the oversampled regions."""
    if c["psf"] is None and not c["os"]:
        return 0.0
    ks = [np.array(q) for q in ([c["psf"]] if c["psf"] is not None else []) + [o["psf"] for o in c["os"]]]
    amp = max(np.abs(q).sum() / min(abs(q.sum()), np.abs(q).sum()) + np.abs(q).sum() for q in ks)
    s = max(float(np.abs(w.call("mexp", 1, p)[0]).max()), float(np.abs(w.call("mimg", 1, p)[0]).max()))
    for _, _, f in flat(c["sets"]):
        s += max([abs(v) for v, (_, kk) in zip(f[1], ref.SPEC.get(f[0]) or ref.POINT[f[0]]) if kk in ("I", "S")] or [0.0]) * 3
    for x0, y0, f in flat(c["sets"]):            # structure the padded image can miss but a region's fine grid can hold
        if f[0] in ref.SPEC:
            v = w.call("fval", int(c["sub"]), 1.0, 0.0, 1.0, f[0].encode(), f[1], [x0, y0], np.array([[x0 + 0.01, y0]]))[3]
            s += abs(float(v[0])) if np.isfinite(v[0]) else 0.0
    return 1e-11 * s * amp


def image_check(path, want, tol, what):
    try:
        got, cards, hist = fits.read(path)
    except Exception as e:
        require(False, "%s: not a readable FITS file (%r)", what, e)
    require(got.shape == want.shape, "%s is %d x %d (columns x rows), asked for %d x %d", what, got.shape[1], got.shape[0], want.shape[1], want.shape[0])
    require(cards.get("BITPIX") in (-32, -64, "-32", "-64"), "%s has BITPIX %s", what, cards.get("BITPIX"))
    big = np.abs(want) < 3e38
    close(np.where(big, got, 0), np.where(big, want, 0), F32, tol + TINY, what)
    return got, hist


def run(ctx, c):
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    p = library(w, 1, c)
    total = M.image(w, 1, p, nx, ny)
    fs = flat(c["sets"])
    parts = [M.single(w, 1, p, k, nx, ny) for k in range(len(fs))]
    full = w.call("mexp", 1, p)[0]
    total2 = M.image(w, 1, p, nx, ny)
    if not (np.isfinite(total).all() and all(np.isfinite(q).all() for q in parts) and np.isfinite(full).all()):
        raise Skip("non-finite model")
    tol = scale(w, c, p)
    M.free(w, 1)
    # the library itself
    close(total2, total, 0, tol, "second image of the model")
    pc, pr = (np.shape(c["psf"])[1], np.shape(c["psf"])[0]) if c["psf"] is not None else (0, 0)
    full = full.reshape(ny + 2 * pr, nx + 2 * pc)
    what = "%dx%d model %s" % (nx, ny, [f[0] for _, _, f in fs])
    close(full[pr:pr + ny, pc:pc + nx], total, 0, tol, "expanded image of %s, at the offset (%d,%d) of the ordinary image" % (what, pc, pr))
    mag = sum(np.abs(q) for q in parts)
    err = np.abs(sum(parts) - total)
    require(bool((err <= tol * (len(fs) + 1) + 1e-12 * mag + 1e-300).all()), "images of the %d functions of %s do not sum to the image: off by up to %.4g where the image is %.6g", len(fs), what, err.max(), total.flat[err.argmax()])
    k = c["order"] % len(fs)
    alone = [[fs[k][0], fs[k][1], [fs[k][2]]]]
    q = library(w, 2, c, alone)
    im = M.image(w, 2, q, nx, ny)
    M.free(w, 2)
    close(parts[k], im, 0, tol, "image of function %d (%s) of the model compared with a model of only that function" % (k + 1, fs[k][2][0]))
    # the program
    d = ctx.newdir()
    open(os.path.join(d, "c.dat"), "w").write(config_text(c))
    os.makedirs(os.path.join(d, "sub/dir"))
    a = options(d, c)
    name = os.path.normpath(c["name"] or "modelimage.fits")
    fname = [os.path.normpath("%s%d_%s.fits" % (c["root"], k + 1, f[0])) for k, (_, _, f) in enumerate(fs)] if c["root"] is not None else []
    ename = os.path.normpath(os.path.join(os.path.dirname(name), "expanded_" + os.path.basename(name)))
    r = np.random.default_rng(5)
    olds = [n for kind, ns in (("output", [name]), ("functions", fname), ("expanded", [ename]), ("other", ["other.fits", "mod99_Sersic.fits"])) if kind in c["old"] for n in ns]
    for n in olds:
        fits.write(os.path.join(d, n), r.normal(size=(3, 5)))
    before = files_in(d)
    res = ctx.run("makeimage", a, d)
    require(not res.crashed and not res.timeout, "makeimage %s crashed: %s", a, res.tail())
    require(res.rc == 0, "makeimage %s failed: %s", a, res.tail())
    after = files_in(d)
    saving = c["mode"] == "save"
    want = {}
    if saving:
        want[name] = total
        if c["exp"]:
            want[ename] = full
        for n, q in zip(fname, parts):
            want[n] = q
    expect = set(before) | set(want) | ({"fl.txt"} if c["flux"] else set())
    require(set(after) == expect, "makeimage %s: files missing %s, unexpected %s", a, sorted(expect - set(after)), sorted(set(after) - expect))
    for n in before:
        if n not in want:
            require(after[n] == before[n], "makeimage %s changed the file %s it was not asked to write", a, n)
    got = {}
    for n in want:
        got[n], hist = image_check(os.path.join(d, n), want[n], tol, "makeimage %s: %s" % (a, n))
        text = "\n".join(t for _, t in hist)
        require("Using config file c.dat" in text, "header of %s does not name the configuration file: %r", n, text)
        require(("Using convolution with PSF image psf.fits" in text) == (c["psf"] is not None), "header of %s about a PSF: %r (PSF %s)", n, text, "given" if c["psf"] is not None else "not given")
        names = re.findall(r"FUNCTION (\S+)(?: # LABEL (.*))?", text)
        j = fname.index(n) if n in fname else None
        if n not in (name, ename) or j is None:
            require(names == ([] if j is None else [(fs[j][2][0], c["labels"][j])]), "header of %s lists functions %s%s", n, names, "" if j is None else ", it holds %s labelled %r" % (fs[j][2][0], c["labels"][j]))
    if saving and fname:
        tot = sum(np.asarray(got[n], float) for n in fname)
        mag = sum(np.abs(np.asarray(got[n], float)) for n in fname)
        dev = np.abs(tot - got[name])
        if name not in fname:
            require(bool((dev <= (mag + np.abs(got[name])) * F32 + tol * (len(fs) + 1) + TINY * 10).all()), "files of the functions of makeimage %s do not sum to %s: off by up to %.4g", a, name, dev.max())
    if saving and c["exp"]:
        close(got[ename][pr:pr + ny, pc:pc + nx], got[name], 0, 0, "%s at the offset (%d,%d) compared with %s" % (ename, pc, pr, name))
    if c["print"] and c["size"]["how"] != "none":
        # images of single functions made later do not appear in the print-out
        m = re.search(r"The model image, row by row:\n(.*?)\n\n", res.out, re.S)
        require(bool(m), "--printimage printed no image")
        rows = [[float(v) for v in l.split()] for l in m.group(1).split("\n")]
        require(len(rows) == full.shape[0] and all(len(v) == full.shape[1] for v in rows), "--printimage printed %d rows of %s values, the image is %s", len(rows), sorted(set(map(len, rows))), full.shape)
        close(np.array(rows), full, 1e-15, tol + 6e-7, "--printimage")
    ctx.note(nontrivial=saving and bool(np.ptp(total) > 0), tag=c["mode"])
    ctx.note(tag="size:" + c["size"]["how"])
    ctx.note(tag="model:" + c["how"])
    if fname and saving:
        ctx.note(tag="functions:%d" % min(len(fs), 4))


# -- requests that cannot be met


BREAK = ["nosize", "onesize", "noconfig", "noarg", "norefimage", "textref", "nopsf", "textpsf", "function", "param", "fewer", "value", "empty",
         "cli-size", "cfg-size", "nooverpsf", "noregion", "badregion", "noscale", "badscale", "counts", "option", "threads", "timing", "estsize", "zero"]
BADINT = ["0", "-3", "abc", "10.5", "1e2", "", "5x", "99999999999", "+"]


@st.composite
def bad_case(draw):
    c = draw(case(mode="save"))
    c["bad"] = draw(st.sampled_from(BREAK))
    c["val"] = draw(st.sampled_from(BADINT))
    c["which"] = draw(st.integers(0, 1))
    return c


def run_bad(ctx, c):
    d = ctx.newdir()
    b = c["bad"]
    s = dict(c["size"])
    if b in ("nosize", "onesize"):
        s.update(cli=[None, None], cfg=[None, None], ref=None)
        if b == "onesize":
            (s["cli"] if c["order"] % 2 else s["cfg"])[c["which"]] = 12
    if b in ("norefimage", "textref"):
        s.update(cli=[None, None], cfg=[None, None], ref=[8, 9])
    if b == "cfg-size":
        s.update(cli=[None, None], cfg=[8, 9], ref=None)
    if b in ("nooverpsf", "noregion", "badregion", "noscale", "badscale", "counts"):
        c = dict(c, os=[dict(psf=np.ones((3, 3)), scale=3, reg=[1, 2, 1, 2], norm=True)])
    c = dict(c, size=s)
    text = config_text(c)
    lines = text.split("\n")
    f = [i for i, l in enumerate(lines) if l.startswith("FUNCTION")]
    if b == "function":
        lines[f[-1]] = lines[f[-1]].replace("FUNCTION ", "FUNCTION No", 1)
    elif b == "param":
        i = f[-1] + 1
        if i >= len(lines) or not lines[i].strip():
            raise Skip("no parameters")
        lines[i] = lines[i].split()[0]
    elif b == "value":
        i = f[0] - 2
        lines[i] = lines[i].split()[0] + "  1.5x"
    elif b == "fewer":
        i = f[-1] + len(gens.pnames(flat(c["sets"])[-1][2][0]))
        if i == f[-1]:
            raise Skip("no parameters")
        del lines[i]
    elif b == "empty":
        lines = [l for l in lines[:f[0] - 2]]
    elif b == "cfg-size":
        i = [i for i, l in enumerate(lines) if l.startswith(("NROWS", "NCOLS ", "NCOLUMNS"))][c["which"]]
        if not c["val"]:
            raise Skip("missing value")
        lines[i] = lines[i].split()[0] + "  " + c["val"]
    open(os.path.join(d, "c.dat"), "w").write("\n".join(lines))
    os.makedirs(os.path.join(d, "sub/dir"))
    a = options(d, c)

    def value(opt, v):
        for i, x in enumerate(a):
            if x == opt:
                a[i + 1] = v
            elif x.startswith(opt + "="):
                a[i] = opt + "=" + v

    def drop(opt):
        for i, x in enumerate(a):
            if x == opt:
                del a[i:i + 2]
                return
            if x.startswith(opt + "="):
                del a[i]
                return
    put = int(c["order"] % (len(a) + 1))
    while put < len(a) and put > 0 and a[put - 1].startswith("-") and "=" not in a[put - 1]:
        put += 1                # not between an option and its value
    if b == "noconfig":
        os.remove(os.path.join(d, "c.dat"))
    elif b == "noarg":
        a = [x for x in a if x != "c.dat"]
        a += [] if a else ["--no-subsampling"]
        if a[-1] in ("-o",):
            raise Skip("argument")
    elif b == "norefimage":
        os.remove(os.path.join(d, "ref.fits"))
    elif b == "textref":
        open(os.path.join(d, "ref.fits"), "w").write("not an image\n" * 40)
    elif b == "nopsf":
        drop("--psf")
        a += ["--psf", "nothing.fits"]
    elif b == "textpsf":
        drop("--psf")
        open(os.path.join(d, "t.fits"), "w").write("SIMPLE  = not an image\n" * 400)
        a += ["--psf=t.fits"]
    elif b == "nooverpsf":
        value("--overpsf", "nothing.fits")
    elif b == "noregion":
        drop("--overpsf_region")
    elif b == "badregion":
        value("--overpsf_region", ["1:5", "a:b,c:d", "5:1,1:2", "1:2,1:x", "1:2;3:4"][c["order"] % 5])
    elif b == "noscale":
        drop("--overpsf_scale")
    elif b == "badscale":
        value("--overpsf_scale", c["val"])
    elif b == "counts":
        a += ["--overpsf", "os0.fits", "--overpsf_scale", "3"]
    elif b == "option":
        a.insert(0, ["--nosuch", "--savee", "-q", "--ncol", "--refimage"][c["order"] % 5])
        if a[0] in ("--refimage",):
            a = a[1:] + a[:1]
    elif b in ("cli-size", "threads", "timing", "estsize", "zero"):
        o = {"cli-size": ["--ncols", "--nrows"][c["which"]], "threads": "--max-threads", "timing": "--timing", "estsize": "--estimation-size", "zero": "--zero-point"}[b]
        v = c["val"]
        if b == "zero":
            v = ["abc", "", "1.5x", "--", "e5"][c["order"] % 5]
        if not v:
            a += [o + "="] if c["order"] % 3 else [o]
        else:
            drop(o)
            a = ([o, v] if c["order"] % 3 else [o + "=" + v]) + a
    before = files_in(d)
    res = ctx.run("makeimage", a, d)
    require(not res.crashed and not res.timeout, "makeimage %s (%s) crashed: %s", a, b, res.tail())
    require(res.rc != 0, "makeimage %s (%s %r) reported success", a, b, c["val"])
    after = files_in(d)
    require(after == before, "makeimage %s (%s) failed and still wrote %s", a, b, sorted(n for n in after if after[n] != before.get(n)))
    require(len((res.out + res.err).strip()) > 0, "makeimage %s (%s) failed without a message", a, b)
    ctx.note(nontrivial=True, tag=b)


CHECK = dict(
    property="P20", needs={"opt": (("makeimage",), True)},
    rule="a case is a model of 1-4 functions (extended, three-dimensional, point sources) on 1..16 x 1..16 pixels with optional PSF and oversampled regions, a source for the size (command line, configuration file, reference image and their combinations), an output name, the saving, printing, timing and flux options in any order, and files already there; non-trivial when an image that is not constant is saved. Invalid requests: one defect of the size, configuration, images or option values each",
    assumptions=["the pixel values themselves are judged by P01-P06; here they are compared with the library's image of the same model", "images are saved as 32-bit floating-point numbers",
                 "a reference image counts only when the other two sources do not give both dimensions; combinations of a reference image with one explicit dimension are left out"],
    components=[
        Component("images", case(), run, 900, 30000),
        Component("invalid", bad_case(), run_bad, 500, 12000),
    ])
