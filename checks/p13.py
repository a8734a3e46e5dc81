"""P13: FITS images are read and written without loss or displacement."""
import os, gzip, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits
from imv.harness import Component, Violation, Skip, require, close

BPS = [8, 16, 32, 64, -32, -64]
RNG = {8: (0, 255), 16: (-2**15, 2**15 - 1), 32: (-2**31, 2**31 - 1), 64: (-2**63, 2**63 - 1)}


def stored(seed, bp, ny, nx, wild):
    r = np.random.default_rng(seed)
    if bp > 0:
        lo, hi = RNG[bp]
        a = r.integers(lo, hi, size=(ny, nx), endpoint=True, dtype=np.int64 if bp != 8 else np.int64)
        if wild:
            a.flat[r.integers(0, a.size)] = lo
            a.flat[r.integers(0, a.size)] = hi
            a.flat[r.integers(0, a.size)] = 0
        return a
    a = r.normal(0, 1, (ny, nx)) * 10.0 ** r.integers(-6, 7, (ny, nx))
    if wild:
        for v in (np.nan, np.inf, -np.inf, 0.0, -0.0, 1e-320, 1e30):
            a.flat[r.integers(0, a.size)] = v
    return a.astype(np.float32).astype(float) if bp == -32 else a


# ---- files and what they hold ---------------------------------------------------------------------------------------
@st.composite
def image(draw, nmax=9):
    bp = draw(st.sampled_from(BPS))
    scale = draw(st.sampled_from([None, None, (1.0, 0.0), (1.0, 32768.0), (0.5, -3.0), (-2.0, 1e3), (1e-5, 7.25)])) if True else None
    if scale == (1.0, 32768.0) and draw(st.booleans()):      # the unsigned conventions
        bp, scale = draw(st.sampled_from([(16, (1.0, 2.0**15)), (32, (1.0, 2.0**31)), (8, (1.0, -128.0))]))
    return dict(nx=draw(st.integers(1, nmax)), ny=draw(st.integers(1, nmax)), bp=bp, scale=scale, seed=draw(st.integers(0, 2**31)), wild=draw(st.integers(0, 3)) == 0)


def content(c):
    a = stored(c["seed"], c["bp"], c["ny"], c["nx"], c["wild"])
    v = np.asarray(a, float)
    if c["scale"]:
        v = v * c["scale"][0] + c["scale"][1]
    return a, v


def blob(c, primary, name=None):
    a, v = content(c)
    kw = {}
    if c["scale"]:
        kw = dict(bscale=c["scale"][0], bzero=c["scale"][1])
    return fits.hdu(a, c["bp"], primary, extname=name, **kw)


OTHER = ["empty", "3d", "1d", "img", "table"]


@st.composite
def place(draw):
    """Where in the file the image sits, and how the file is named."""
    before = draw(st.lists(st.sampled_from(OTHER), max_size=3))
    if before and before[0] == "table":
        before[0] = "empty"
    return dict(before=before, after=draw(st.lists(st.sampled_from(OTHER), max_size=1)), by=draw(st.sampled_from(["index", "name", "uname"])), gz=draw(st.booleans()))


def other(k, primary, rng):
    if k == "empty":
        return fits.hdu(None, 8, primary)
    if k == "3d":
        return fits.hdu(rng.normal(0, 1, (2, 3, 4)), -32, primary)
    if k == "1d":
        return fits.hdu(rng.normal(0, 1, 5), -32, primary)
    if k == "img":
        return fits.hdu(rng.normal(0, 1, (3, 4)), -64, primary)
    return fits.table_hdu()


def put(d, stem, c, p):
    """Writes the file, returns the name by which the programs are told to read it."""
    rng = np.random.default_rng(c["seed"] + 1)
    b = b""
    for k, o in enumerate(p["before"]):
        b += other(o, k == 0, rng)
    n = len(p["before"])
    b += blob(c, n == 0, "SCI" if n else None)
    for o in p["after"]:
        b += other(o, False, rng)
    name = stem + ".fits" + (".gz" if p["gz"] else "")
    open(os.path.join(d, name), "wb").write(gzip.compress(b, 1) if p["gz"] else b)
    if n == 0:
        return name
    return name + ("[%d]" % n if p["by"] == "index" else "[SCI]" if p["by"] == "name" else "[sci]")


@st.composite
def read_case(draw):
    c = draw(image(12))
    c["place"] = draw(place())
    return c


def run_read(ctx, c):
    d = ctx.newdir()
    w = ctx.worker()
    name = os.path.join(d, put(d, "a", c, c["place"]))
    what = "%s (BITPIX %d, BSCALE/BZERO %s, HDUs before: %s)" % (os.path.basename(name), c["bp"], c["scale"], c["place"]["before"])
    r = w.call("imsize", name.encode())
    require(r == [c["nx"], c["ny"], 0] or list(r) == [c["nx"], c["ny"], 0], "%s: size reported as %s, is %d columns %d rows", what, list(r), c["nx"], c["ny"])
    require(w.call("imcheck", name.encode())[0] == 1, "%s: not recognised as an image", what)
    r = w.call("imread", name.encode())
    require(r[0] != "null" and len(r) == 3, "%s: could not be read", what)
    require(r[:2] == [c["nx"], c["ny"]], "%s: read as %d x %d, is %d x %d", what, r[0], r[1], c["nx"], c["ny"])
    got = r[2].reshape(c["ny"], c["nx"])
    _, want = content(c)
    same = (got == want) | (np.isnan(got) & np.isnan(want))
    if not same.all():
        g, v = got[~same], want[~same]
        require(np.isfinite(g).all() and np.isfinite(v).all(), "%s: read\n%s\nwritten\n%s", what, got, want)
        mag = max(np.abs(np.asarray(content(c)[0], float)[~same]).max() * abs(c["scale"][0]) if c["scale"] else 0, np.abs(v).max())
        close(g, v, 4e-16, 4e-16 * mag, what)
    ctx.note(nontrivial=c["nx"] * c["ny"] > 1, tag="bitpix:%d" % c["bp"])
    ctx.note(tag="ext" if c["place"]["before"] else "primary")
    if c["scale"]:
        ctx.note(tag="scaled")


# ---- files which are not 2-D images ------------------------------------------------------------------------------
BADK = ["missing", "empty", "text", "1d", "3d", "flat3d", "nodata", "table", "noext", "noname", "cut", "cuthdr", "dir", "bytes", "edit", "edit"]


@st.composite
def bad_case(draw):
    c = draw(image(5))
    c["wild"] = False
    c["kind"] = draw(st.sampled_from(BADK))
    c["pos"] = draw(st.integers(0, 10**6))
    c["raw"] = draw(st.binary(max_size=40)).hex() if c["kind"] == "bytes" else ""
    c["edits"] = draw(st.lists(st.tuples(st.integers(0, 2879), st.integers(32, 126)).map(list), min_size=1, max_size=4)) if c["kind"] == "edit" else []
    c["role"] = draw(st.sampled_from(["data", "mask", "noise", "psf", "ref", "overpsf", "mcmc", "image-info"]))
    return c


def put_bad(d, c):
    k = c["kind"]
    f = os.path.join(d, "b.fits")
    full = blob(c, True)
    rng = np.random.default_rng(c["seed"])
    must = True
    name = "b.fits"
    if k == "missing":
        return "nosuch.fits", True
    if k == "dir":
        os.makedirs(f)
        return name, True
    if k == "empty":
        b = b""
    elif k == "text":
        b = b"# not a FITS file\n1 2 3\n" * 50
    elif k in ("1d", "3d"):
        b = other(k, True, rng)
    elif k == "flat3d":
        a, _ = content(c)
        b = fits.hdu(np.asarray(a)[None], c["bp"])
    elif k == "nodata":
        b = fits.hdu(None, 8)
    elif k == "table":
        b, name = fits.hdu(None, 8) + fits.table_hdu(), "b.fits[1]"
    elif k == "noext":
        b, name = full, "b.fits[1]"
    elif k == "noname":
        b, name = full + blob(c, False, "SCI"), "b.fits[ERR]"
    elif k == "cut":
        n = c["nx"] * c["ny"] * abs(c["bp"]) // 8
        b = full[:2880 + c["pos"] % n]
    elif k == "cuthdr":
        b = full[:c["pos"] % 2880]
    elif k == "bytes":
        b, must = bytes.fromhex(c["raw"]) + full[:c["pos"] % 4000], False
    else:
        b, must = bytearray(full), False
        for p, v in c["edits"]:
            b[p] = v
        # the edited header may still be valid, with other meaning: only a clean answer is required; but never let it ask for a huge image
        m = re.findall(rb"NAXIS[12] *= *(\d+)", bytes(b[:2880]))
        if any(int(x) > 2000 for x in m) or b"GROUPS" in b:
            raise Skip("huge image")
    open(f, "wb").write(bytes(b))
    return name, must


def run_bad(ctx, c):
    d = ctx.newdir()
    name, must = put_bad(d, c)
    nx, ny = c["nx"], c["ny"]
    fits.write(os.path.join(d, "d.fits"), np.arange(nx * ny, dtype=float).reshape(ny, nx) + 10)
    fits.write(os.path.join(d, "p.fits"), np.ones((3, 3)))
    open(os.path.join(d, "c.dat"), "w").write("X0 1 0,9\nY0 1 0,9\nFUNCTION FlatSky\nI_sky 3 0,9\n")
    role = c["role"]
    f = ["--fitstat-only", "--config", "c.dat"]
    prog, args = "imfit", {"data": [name] + f, "mask": ["d.fits", "--mask", name] + f, "noise": ["d.fits", "--noise", name] + f, "psf": ["d.fits", "--psf", name] + f}.get(role, None)
    if role == "ref":
        prog, args = "makeimage", ["c.dat", "-o", "o.fits", "--refimage", name]
    elif role == "overpsf":
        prog, args = "makeimage", ["c.dat", "-o", "o.fits", "--ncols", nx + 2, "--nrows", ny + 2, "--psf", "p.fits", "--overpsf", name, "--overpsf_scale", "2", "--overpsf_region", "1:%d,1:%d" % (nx, ny)]
    elif role == "mcmc":
        prog, args = "imfit-mcmc", [name, "--config", "c.dat", "--max-chain-length", "3", "--burnin-length", "2", "--nchains", "3", "-o", "chain"]
    elif role == "image-info":
        open(os.path.join(d, "info.dat"), "w").write("IMAGE_START\nDATA %s\n" % name)
        prog, args = "multimfit", ["--image-info", "info.dat"] + f
    before = set(os.listdir(d))
    r = ctx.run(prog, args, d, cfg="san", cpu=100, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:alloc_dealloc_mismatch=0"})
    what = "%s with %s (%s) as %s image" % (prog, name, c["kind"], role)
    require(not r.crashed and r.rc not in (99,) and "Sanitizer" not in r.err and "runtime error" not in r.err, "%s crashed: %s", what, r.tail())
    if must and not (role == "ref" and c["kind"] == "cut"):      # only the size of a reference image is read
        require(r.rc != 0, "%s: accepted\n%s", what, r.tail())
    if r.rc != 0:
        require(len(r.err.strip()) > 0, "%s: refused without a message", what)
        new = sorted(set(os.listdir(d)) - before)
        require(not new, "%s: refused but %s written", what, new)
        require("STATISTIC" not in r.out and "CHI-SQUARE" not in r.out, "%s: refused but computed: %s", what, r.tail())
    ctx.note(nontrivial=True, tag=c["kind"])
    ctx.note(tag=role)


# ---- writing --------------------------------------------------------------------------------------------------------
@st.composite
def write_case(draw):
    return dict(nx=draw(st.integers(1, 40)), ny=draw(st.integers(1, 40)), seed=draw(st.integers(0, 2**31)), wild=draw(st.booleans()), gz=draw(st.integers(0, 3)) == 0, old=draw(st.sampled_from([None, 1, 60])),
                com=draw(st.lists(st.text([chr(k) for k in range(32, 127)], max_size=300), max_size=4)))


def check_written(path, want, what, com=None):
    got, cards, hist = fits.read(path)
    require(got.shape == want.shape, "%s: written image is %s, expected %s (rows, columns)", what, got.shape, want.shape)
    with np.errstate(all="ignore"):
        w32 = want.astype(np.float32).astype(float)
    same = (got == w32) | (np.isnan(got) & np.isnan(w32))
    require(bool(same.all()), "%s: written image holds\n%s\nexpected\n%s", what, got, w32)
    require(int(cards["BITPIX"]) == -32 and cards.get("SIMPLE") == "T", "%s: header %s", what, cards)
    if com is not None:
        lines = [v for k, v in hist if k == "COMMENT"]
        cut = []
        for t in com:
            t = t.rstrip()
            cut += [t[k:k + 72].rstrip() for k in range(0, len(t), 72)]
        # cfitsio's own two standard comments come first
        own = lines[2:] if len(lines) >= 2 and lines[0].lstrip().startswith("FITS (Flexible Image Transport System)") and "Astrophysics', volume 376" in lines[1] else lines
        own, cut = [l for l in own if l], [l for l in cut if l]
        require(own == cut, "%s: header comments %r, given %r", what, own, com)
    return got


def run_write(ctx, c):
    d = ctx.newdir()
    w = ctx.worker()
    a = stored(c["seed"], -64, c["ny"], c["nx"], c["wild"])
    name = os.path.join(d, "o.fits" + (".gz" if c["gz"] else ""))
    if c["old"]:
        open(name, "wb").write(b"old" * 2880 * c["old"])
    com = [x for x in c["com"]]
    st_ = w.call("imwrite", c["nx"], c["ny"], name.encode(), ("\n".join(com) + "\n" if com else "").encode(), a.ravel())[0]
    what = "%d x %d image" % (c["nx"], c["ny"])
    require(st_ == 0, "%s: could not be written (status %s)", what, st_)
    require(os.path.exists(name), "%s: reported as written, but no file", what)
    check_written(name, a, what, com)
    size = os.path.getsize(name)
    if not c["gz"]:
        require(size % 2880 == 0, "%s: file of %d bytes", what, size)
    r = w.call("imread", name.encode())
    require(r[:2] == [c["nx"], c["ny"]], "%s: read back as %s", what, r[:2])
    with np.errstate(all="ignore"):
        w32 = a.astype(np.float32).astype(float).ravel()
    g = r[2]
    require(bool(((g == w32) | (np.isnan(g) & np.isnan(w32))).all()), "%s: read back with other values", what)
    ctx.note(nontrivial=c["nx"] != c["ny"], tag="gz" if c["gz"] else "plain")
    if c["wild"]:
        ctx.note(tag="non-finite")


# ---- the programs, every role, any encoding --------------------------------------------------------------------------
@st.composite
def role_case(draw):
    nx, ny = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    enc = lambda: dict(bp=draw(st.sampled_from([-64, -64, 64, 32])), place=draw(place()))
    return dict(nx=nx, ny=ny, px=draw(st.sampled_from([1, 3, 5])), py=draw(st.sampled_from([1, 3, 4])), seed=draw(st.integers(0, 2**31)), enc={k: enc() for k in ("data", "mask", "noise", "psf")},
                use=sorted(draw(st.sets(st.sampled_from(["mask", "noise", "psf"])))), prog=draw(st.sampled_from(["imfit", "multimfit"])))


def run_role(ctx, c):
    d = ctx.newdir()
    r = np.random.default_rng(c["seed"])
    shp = (c["ny"], c["nx"])
    A = dict(data=r.integers(5, 200, shp).astype(float), mask=(r.random(shp) < 0.2).astype(float), noise=r.integers(1, 9, shp).astype(float), psf=r.integers(1, 9, (c["py"], c["px"])).astype(float))
    A["mask"][0, 0] = 0
    res = []
    open(os.path.join(d, "c.dat"), "w").write("X0 2.3\nY0 1.7\nFUNCTION Exponential\nPA 20\nell 0.3\nI_0 90\nh 2.5\nFUNCTION FlatSky\nI_sky 4\n")
    for tag in ("plain", "other"):
        names = {}
        for k in ["data"] + c["use"]:
            if tag == "plain":
                names[k] = "%s_plain.fits" % k
                fits.write(os.path.join(d, names[k]), A[k])
            else:
                e = c["enc"][k]
                rng = np.random.default_rng(c["seed"] + 1)
                b = b"".join(other(o, j == 0, rng) for j, o in enumerate(e["place"]["before"]))
                n = len(e["place"]["before"])
                b += fits.hdu(A[k], e["bp"], n == 0, extname="SCI" if n else None)
                f = k + ".fits" + (".gz" if e["place"]["gz"] else "")
                open(os.path.join(d, f), "wb").write(gzip.compress(b, 1) if e["place"]["gz"] else b)
                names[k] = f + ("" if n == 0 else "[%d]" % n if e["place"]["by"] == "index" else "[SCI]")
        if c["prog"] == "imfit":
            args = [names["data"], "--config", "c.dat", "--fitstat-only"]
            for k in c["use"]:
                args += ["--" + k, names[k]]
        else:
            L = ["IMAGE_START", "DATA " + names["data"]] + ["%s %s" % (dict(mask="MASK", noise="ERROR", psf="PSF")[k], names[k]) for k in c["use"]]
            open(os.path.join(d, "info.dat"), "w").write("\n".join(L) + "\n")
            args = ["--config", "c.dat", "--image-info", "info.dat", "--fitstat-only"]
        q = ctx.run(c["prog"], args, d)
        require(q.rc == 0, "%s %s failed: %s", c["prog"], " ".join(map(str, args)), q.tail())
        m = re.findall(r"(CHI-SQUARE|AIC|BIC) = +(\S+)", q.out)
        require(len(m) >= 2, "%s: no statistic printed: %s", c["prog"], q.tail())
        res.append(m)
    require(res[0] == res[1], "%s: the same images in other FITS files (%s) give %s instead of %s", c["prog"], {k: c["enc"][k] for k in ["data"] + c["use"]}, res[1], res[0])
    ctx.note(nontrivial=True, tag=c["prog"])


# ---- failing writes ---------------------------------------------------------------------------------------------------
@st.composite
def fault_case(draw):
    return dict(nx=draw(st.integers(1, 60)), ny=draw(st.integers(1, 60)), kind=draw(st.sampled_from(["limit", "limit", "limit", "nodir", "isdir", "none"])), at=draw(st.integers(0, 20000)), prog=draw(st.sampled_from(["makeimage", "makeimage", "functions", "imfit", "makemultimages"])),
                old=draw(st.booleans()))


def run_fault(ctx, c):
    d = ctx.newdir()
    nx, ny = c["nx"], c["ny"]
    cfg = "X0 3.3\nY0 2.1\nFUNCTION Exponential\nPA 20\nell 0.3\nI_0 90\nh 5.5\nFUNCTION FlatSky\nI_sky 4\n"
    open(os.path.join(d, "c.dat"), "w").write(cfg)
    sub = "sub/" if c["kind"] in ("nodir", "isdir") else ""
    outs = []
    if c["prog"] == "makeimage":
        args, outs = ["c.dat", "--ncols", nx, "--nrows", ny, "-o", "%so.fits" % sub], ["o.fits"]
    elif c["prog"] == "functions":
        args, outs = ["c.dat", "--ncols", nx, "--nrows", ny, "-o", "%so.fits" % sub, "--output-functions", "%sf" % sub], ["o.fits", "f1_Exponential.fits", "f2_FlatSky.fits"]
    elif c["prog"] == "imfit":
        fits.write(os.path.join(d, "d.fits"), np.full((ny, nx), 7.0) + np.arange(nx))
        args, outs = ["d.fits", "--config", "c2.dat", "--save-model", "%so.fits" % sub, "--save-residual", "%sr.fits" % sub, "--save-weights", "%sw.fits" % sub, "--nosave-params"], ["o.fits", "r.fits", "w.fits"]
        args = [a for a in args if a != "--nosave-params"] + ["--save-params", "p.dat"]
        open(os.path.join(d, "c2.dat"), "w").write("X0 3.3 fixed\nY0 2.1 fixed\nFUNCTION FlatSky\nI_sky 4\n")
    else:
        open(os.path.join(d, "info.dat"), "w").write("IMAGE_START\nNCOLS %d\nNROWS %d\n" % (nx, ny))
        args, outs = ["c.dat", "--image-info", "info.dat", "-o", "%so" % sub], ["o_0.fits"]
    prog = "makeimage" if c["prog"] == "functions" else c["prog"]
    res = {}
    for tag in ("good", "bad"):
        # a fault-free run first, for the content the files should have
        e = os.path.join(d, tag)
        os.makedirs(e)
        for f in os.listdir(d):
            if os.path.isfile(os.path.join(d, f)):
                open(os.path.join(e, f), "wb").write(open(os.path.join(d, f), "rb").read())
        if sub and (tag == "good" or c["kind"] == "isdir"):
            os.makedirs(os.path.join(e, "sub"))
        if tag == "bad" and c["kind"] == "isdir":
            for o in outs:
                os.makedirs(os.path.join(e, sub + o))
        if c["old"] and tag == "bad" and c["kind"] not in ("nodir", "isdir"):
            for o in outs:
                fits.write(os.path.join(e, sub + o), np.full((70, 70), 1.0))
        r = ctx.run(prog, args, e, fsize=c["at"] if tag == "bad" and c["kind"] == "limit" else None)
        require(not r.crashed, "%s crashed when an output could not be written: %s", prog, r.tail())
        res[tag] = r
    if res["good"].rc != 0:
        raise Violation("%s %s failed: %s" % (prog, args, res["good"].tail()))
    lost = []
    for o in outs:
        want, _, hist = fits.read(os.path.join(d, "good", sub + o))
        com = "".join(v for k, v in hist if k == "COMMENT")
        need = {"makeimage": ["Using config file c.dat"], "functions": ["Using config file c.dat"], "makemultimages": [],
                "imfit": {"o.fits": ["Model image", "From fit to data image d.fits"], "r.fits": ["Residual image", "Data image d.fits - best-fitting model image"], "w.fits": ["Weight image"]}.get(o, [])}[c["prog"]]
        if o.startswith("f"):
            need = need + [o.split("_")[1].split(".")[0]]
        for t in need:
            require(t.replace(" ", "") in com.replace(" ", ""), "%s: %r is not recorded in the header of %s: %s", prog, t, o, com)
        try:
            got = fits.read(os.path.join(d, "bad", sub + o))[0]
            ok = got.shape == want.shape and bool(((got == want) | (np.isnan(got) & np.isnan(want))).all())
        except Exception:
            ok = False
        if not ok:
            lost.append(o)
            require(o in res["bad"].err, "%s %s: output %s is lost or incomplete (%s) and nothing is said about it on stderr (exit status %d):\n%s", prog, args, o, c["kind"], res["bad"].rc, res["bad"].tail())
    ctx.note(nontrivial=bool(lost), tag=c["kind"])
    ctx.note(tag=prog)


CHECK = dict(
    property="P13", needs={"opt": (("makeimage", "imfit", "multimfit", "makemultimages"), True), "san": (("makeimage", "imfit", "imfit-mcmc", "multimfit"), False)},
    rule="read: FITS files written by an independent writer (all BITPIX, BSCALE/BZERO, extension by number or name after other HDUs, gzip) compared pixel by pixel with what ReadImageAsVector/GetImageSize return; reject: files which are not 2-D images, or are cut or edited, given in every image role; write: SaveVectorAsImage read back by an independent reader (float32 values, size, comments); roles: the same images in other FITS encodings give the same statistics; faults: outputs written under a file-size limit or into impossible places.  Non-trivial: more than one pixel, or a lost output",
    assumptions=["BLANK (undefined integer pixels), compressed-image extensions and cfitsio's extended file-name syntax beyond [n], [name] and sections are not generated", "a warning on stderr naming the file counts as reporting a lost output image (imfit documents this as a warning)", "file-size limits stand for a full disk"],
    components=[
        Component("read", read_case(), run_read, 6000, 200000),
        Component("reject", bad_case(), run_bad, 1200, 30000),
        Component("write", write_case(), run_write, 4000, 100000),
        Component("roles", role_case(), run_role, 500, 20000),
        Component("faults", fault_case(), run_fault, 500, 20000),
    ])
