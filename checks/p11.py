"""P11: malformed text input is rejected cleanly, never crashing or being misread."""
import os, re, random
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, layout, cfgref, models as M, ref
from imv.harness import Component, Violation, Skip, require
from imv.worker import WorkerDied
from checks.p10 import labels, feats, limits as rand_limits, limrow

ASAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:alloc_dealloc_mismatch=0:max_allocation_size_mb=4000"}
NX, NY = 9, 8
EASY = ["Exponential", "Sersic", "Gaussian", "FlatSky", "Moffat", "Core-Sersic", "BrokenExponential", "GaussianRing"]


def sane(ctx, r, what):
    """not a crash, sanitizer report, kill or time-out"""
    require(not r.crashed and r.rc >= 0, "%s: the program crashed, hung or reported a memory error\n%s", what, r.tail())


def listing(d):
    return sorted(os.listdir(d))


def data_files(d, nx=NX, ny=NY):
    y, x = np.mgrid[1:ny + 1, 1:nx + 1]
    im = 50.0 + 100.0 * np.exp(-np.hypot(x - nx / 2.0, y - ny / 2.0) / 2.0)
    fits.write(os.path.join(d, "data.fits"), im)
    p = np.exp(-((np.arange(5)[:, None] - 2.0) ** 2 + (np.arange(5) - 2.0) ** 2) / 2.0)
    fits.write(os.path.join(d, "psf.fits"), p)


@st.composite
def model_case(draw, names=EASY, all_limits=False):
    sets = draw(gens.model(NX, NY, names=names, max_sets=3, max_funcs=2, margin=-1))
    p = gens.flat_params(sets)
    nf = sum(len(s[2]) for s in sets)
    lim = draw(rand_limits(p)) if draw(st.booleans()) else [None] * len(p)
    return dict(sets=sets, limits=lim, labels=draw(labels(nf)) if draw(st.booleans()) else {}, opts={}, header=[], lseed=draw(st.integers(0, 10**6)),
                feats=[f for f in draw(feats()) if f != "names"])


# ---- (1) one defect in an otherwise valid configuration file --------------------------------------------------------
BADNUM = ["abc", "1.2.3", "1,2", "--3", "nan", "NaN", "inf", "-inf", "1e", "3x", "1e400", "e5", ".", "+", "1.0d3", "3;4", "fixed", "1/2", "$3", "1_000"]
BADLIM = ["1", "a,b", "1,x", "x,2", "1;2", "nan,3", "0,inf", "1:2", "[1,2]", "1,2,3", "free", "FIXED", "(0,1)", "0-1"]
BADNAME = ["NoSuchFunction", "sersic", "EXPONENTIAL", "Sersi", "Sersic2", "X0", "FUNCTION", "#", "7", "Exponential,", "-"]
KINDS = ["novalue", "badnum", "badlim", "lohi", "outside", "drop", "extra", "move", "badname", "noname", "nox0", "noy0", "x0last", "emptyset", "nofunc", "swapxy", "paramfirst"]
FILEK = ["empty", "blank", "comments", "binary", "missing", "directory", "header-only"]


@st.composite
def defect_case(draw):
    c = draw(model_case())
    c["prog"] = draw(st.sampled_from(["imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages"]))
    mk = c["prog"] in ("makeimage", "makemultimages")
    c["kind"] = draw(st.sampled_from([k for k in KINDS if not (mk and k in ("lohi", "outside"))] + (FILEK if draw(st.integers(0, 3)) == 0 else [])))
    c["a"], c["b"] = draw(st.integers(0, 999)), draw(st.integers(0, 999))
    return c


def defect_text(c):
    """lines of the configuration (names as parameter labels), then one defect; returns text or None if not applicable"""
    r = random.Random(c["a"] * 1000 + c["b"])
    full = c["limits"]
    if c["prog"] == "imfit-mcmc":
        full = [l if l is not None else "x" for l in full]
    txt = layout.write(c)
    L = txt.split("\n")
    idx = [i for i, l in enumerate(L) if cfgref.toks(l)]
    key = lambda i: cfgref.toks(L[i])[0]
    par = [i for i in idx if key(i) != "FUNCTION"]
    fun = [i for i in idx if key(i) == "FUNCTION"]
    xs = [i for i in idx if key(i) == "X0"]
    ys = [i for i in idx if key(i) == "Y0"]
    plain = [i for i in par if i not in xs and i not in ys]
    k = c["kind"]

    def redo(i, t):
        L[i] = "  ".join(t)
    if k == "novalue":
        i = r.choice(par)
        redo(i, [key(i)] + (["# 3.0"] if r.random() < 0.5 else []))
        if len(L[i]) == 1:
            return None
    elif k == "badnum":
        i = r.choice(par)
        t = cfgref.toks(L[i])
        redo(i, [t[0], r.choice(BADNUM)] + t[2:])
    elif k == "badlim":
        i = r.choice(par)
        t = cfgref.toks(L[i])
        redo(i, t[:2] + [r.choice(BADLIM)])
    elif k in ("lohi", "outside"):
        i = r.choice(par)
        t = cfgref.toks(L[i])
        v = float(t[1])
        s = abs(v) + 1.0
        if k == "lohi":
            lo, hi = r.choice([(v + s, v - s), (v, v), (v + s, v), (v, v - s)])
        else:
            lo, hi = r.choice([(v + s * 1e-3, v + 2 * s), (v - 2 * s, v - s * 1e-3), (v + s, v + s * 1.5)])
        redo(i, t[:2] + ["%r,%r" % (lo, hi)])
    elif k == "drop":
        del L[r.choice(plain)]
    elif k == "extra":
        i = r.choice(plain)
        L.insert(i, L[i])
    elif k == "move":       # compensating: one function gets a parameter line of another
        if len(fun) < 2:
            return None
        i = r.choice(plain)
        f = max(j for j in fun if j < i)
        g = r.choice([j for j in fun if j != f])
        l = L.pop(i)
        L.insert(g + (0 if i < g else 1), l)
    elif k == "badname":
        i = r.choice(fun)
        t = cfgref.toks(L[i])
        redo(i, [t[0], r.choice(BADNAME)])
    elif k == "noname":
        i = r.choice(fun)
        L[i] = "FUNCTION" + r.choice(["", "  ", " # Sersic"])
    elif k == "nox0":
        del L[xs[0] if len(xs) == 1 else r.choice(xs)]
    elif k == "noy0":
        del L[r.choice(ys)]
    elif k == "x0last":
        L.append("X0  3.0")
    elif k == "emptyset":
        i = r.choice(xs)
        L[i:i] = ["X0  3.0", "Y0  4.0"]
    elif k == "nofunc":
        L = [l for i, l in enumerate(L) if i not in fun]
    elif k == "swapxy":
        i = r.randrange(len(xs))
        L[xs[i]], L[ys[i]] = L[ys[i]], L[xs[i]]
    elif k == "paramfirst":
        i = r.choice(ys)
        L.insert(i + 1, L[r.choice(plain)])
    return "\n".join(L)


def write_bad(c, d):
    k, p = c["kind"], os.path.join(d, "c.dat")
    r = random.Random(c["b"])
    if k == "missing":
        return "(no such file)"
    if k == "directory":
        os.mkdir(p)
        return "(a directory)"
    if k == "binary":
        b = bytes(r.randrange(256) for _ in range(r.choice([1, 30, 3000])))
        open(p, "wb").write(b)
        return repr(b[:200])
    t = {"empty": "", "blank": "\n \n\t\n\n", "comments": "# X0 3\n# Y0 4\n#FUNCTION FlatSky\n# I_sky 3\n", "header-only": "GAIN 4.5\nREADNOISE 3\n"}.get(k)
    if t is None:
        t = defect_text(c)
        if t is None:
            raise Skip("not applicable")
    open(p, "w").write(t)
    return t


def command(c, d, cfgname="c.dat"):
    prog = c["prog"]
    if prog == "makeimage":
        return [cfgname, "-o", "out.fits", "--ncols", "7", "--nrows", "6", "--output-functions", "fn", "--save-fluxes", "fl.txt"]
    if prog == "imfit":
        return ["data.fits", "-c", cfgname, "--save-params", "out.dat", "--save-model", "m.fits", "--save-residual", "r.fits", "--max-threads", "1"]
    if prog == "imfit-mcmc":
        return ["data.fits", "-c", cfgname, "-o", "chain", "--max-chain-length", "3", "--seed", "1", "--max-threads", "1"]
    if prog == "multimfit":
        open(os.path.join(d, "info.dat"), "w").write("IMAGE_START\nDATA data.fits\n")
        return ["-i", "info.dat", "-c", cfgname, "--save-params-root", "out", "--max-threads", "1"]
    open(os.path.join(d, "info.dat"), "w").write("IMAGE_START\nNCOLS 7\nNROWS 6\n")
    return [cfgname, "--image-info", "info.dat", "-o", "out"]


def run_defect(ctx, c):
    d = ctx.newdir()
    data_files(d)
    txt = write_bad(c, d)
    args = command(c, d)
    before = listing(d)
    r = ctx.run(c["prog"], args, d, cfg="san", cpu=60, env=ASAN)
    what = "%s with configuration (%s)\n%s\n" % (c["prog"], c["kind"], txt)
    sane(ctx, r, what)
    require(r.rc != 0, "%s was accepted\n%s", what, r.tail())
    require(len((r.err + r.out).strip()) > 0, "%s: no message", what)
    require(re.search(r"error|warning|\*\*\*", r.err + r.out, re.I), "%s: no error message\n%s", what, r.tail())
    require(listing(d) == before, "%s: files written: %s", what, sorted(set(listing(d)) - set(before)))
    ctx.note(nontrivial=True, tag=c["prog"])
    ctx.note(tag=c["kind"])


# ---- (2) arbitrary edits of configuration text: parser against the documented grammar -------------------------------
TOK = ["X0", "Y0", "FUNCTION", "FUNCTION Exponential", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END", "fixed", "#", "# LABEL", "LABEL", "1,2", "0,1,", ",", "10", "-3.5", "1e5", "nan",
       "1e999", "", " ", "\t", "\n", "\n\n", "X0 5\nY0 5\n", "GAIN 4.5", "X01", "x0", "FUNCTIONS", "0x1F", "\r\n", "\0", "\xff\xfe", "é", "%s%n", "A" * 300, "X0\t3\t1,9", "=", "[", "-"]


@st.composite
def edit_case(draw):
    c = draw(model_case(names=gens.ALLF))
    c["header"] = draw(st.lists(st.sampled_from([["GAIN", "4.5"], ["READNOISE", "0.7"], ["title", "a", "b"], ["NCOLS", "10"]]), max_size=3))
    if draw(st.integers(0, 3)) == 0:
        c["opts"] = {"0": [["method", "bicubic"]]}
    op = st.one_of(
        st.tuples(st.just("del"), st.integers(0, 9999), st.integers(1, 40)),
        st.tuples(st.just("ins"), st.integers(0, 9999), st.sampled_from(TOK)),
        st.tuples(st.just("tok"), st.integers(0, 9999), st.sampled_from(TOK)),
        st.tuples(st.just("line"), st.integers(0, 9999), st.sampled_from(TOK)),
        st.tuples(st.just("dup"), st.integers(0, 9999), st.integers(0, 9999)),
        st.tuples(st.just("swap"), st.integers(0, 9999), st.integers(0, 9999)),
        st.tuples(st.just("dell"), st.integers(0, 9999), st.integers(1, 4)),
        st.tuples(st.just("cut"), st.integers(0, 9999), st.just(0)),
        st.tuples(st.just("byte"), st.integers(0, 9999), st.integers(0, 255)))
    c["ops"] = [list(o) for o in draw(st.lists(op, min_size=1, max_size=5))]
    return c


def apply_ops(b, ops):
    enc = lambda s: s.encode("utf8") if isinstance(s, str) else s
    for o, a, x in ops:
        n = len(b)
        i = a * (n + 1) // 10000
        if o == "del":
            b = b[:i] + b[i + x:]
        elif o == "ins":
            b = b[:i] + enc(x) + b[i:]
        elif o == "cut":
            b = b[:i]
        elif o == "byte":
            b = b[:i] + bytes([x]) + b[i + 1:]
        elif o == "tok":
            m = list(re.finditer(rb"[^ \t\n]+", b))
            if m:
                t = m[a * len(m) // 10000]
                b = b[:t.start()] + enc(x) + b[t.end():]
        else:
            L = b.split(b"\n")
            i = a * len(L) // 10000
            if o == "line":
                L.insert(i, enc(x))
            elif o == "dup":
                L.insert(x * len(L) // 10000, L[i])
            elif o == "swap":
                j = x * len(L) // 10000
                L[i], L[j] = L[j], L[i]
            elif o == "dell":
                del L[i:i + x]
            b = b"\n".join(L)
    return b


def run_edit(ctx, c):
    b = apply_ops(layout.write(c).encode("utf8"), c["ops"])
    w = ctx.worker("san")
    verdicts = set()
    for mode in (0, 1):
        try:
            want = cfgref.parse(b, bool(mode))
        except cfgref.Reject as e:
            want = "reject: %s" % e
        except cfgref.DontCare as e:
            want = None
        try:
            r = w.call("parse", mode, 1, b)
        except WorkerDied as e:
            raise Violation("the parser crashed (mode %d) on\n%s\n%s" % (mode, b.decode("latin1"), str(e)[-2500:]))
        verdicts.add("rejected" if r[0] != 0 else "accepted")
        if want is None:
            ctx.note(tag="undocumented")
            continue
        show = "(limits %s)\n%s\n" % ("checked" if mode else "ignored", b.decode("latin1"))
        if isinstance(want, str):
            require(r[0] != 0, "text that must be rejected (%s) was accepted %s", want, show)
            continue
        require(r[0] == 0, "a valid configuration was rejected (status %s) %s", r[0], show)
        _, found, nopt, nm, lb, ex, op, par, lims, sts = r
        dec = lambda x: x.decode("latin1") if isinstance(x, bytes) else x
        nm, lb, op = dec(nm).split("\n")[:-1], dec(lb).split("\n")[:-1], [x.split("\t") for x in dec(op).split("\n")[:-1]]
        lat = lambda x: x.encode("utf8").decode("latin1") if not isinstance(x, str) else x
        require(nm == want["names"] and lb == want["labels"], "functions %s with labels %s, expected %s and %s %s", nm, lb, want["names"], want["labels"], show)
        require(op == want["opts"], "image options %s, expected %s %s", op, want["opts"], show)
        require(list(map(float, par)) == want["params"], "parameters %s, expected %s %s", list(par), want["params"], show)
        require(list(map(int, sts)) == want["starts"], "function sets start at %s, expected %s %s", list(sts), want["starts"], show)
        exs = [dict(kv.split("\t") for kv in blk.split("\n") if kv) for blk in dec(ex).split("--\n")[:-1]]
        require(exs == want["extra"], "optional parameters %s, expected %s %s", exs, want["extra"], show)
        if mode:
            require(np.array(lims).reshape(-1, 5).tolist() == [list(map(float, x)) for x in want["lims"]], "limits %s, expected %s %s", list(lims), want["lims"], show)
            require(bool(found) == want["found"], "limits-found flag %s %s", found, show)
    for v in verdicts:
        ctx.note(tag=v)
    ctx.note(nontrivial=True)


# ---- (3) the same edits given to the programs: nothing crashes, refusals leave nothing behind -------------------------
@st.composite
def cli_case(draw):
    c = draw(edit_case().filter(lambda c: sum(len(s[2]) for s in c["sets"]) <= 3))
    c["prog"] = draw(st.sampled_from(["makeimage", "makeimage", "imfit", "imfit-mcmc", "multimfit", "makemultimages"]))
    return c


def run_cli(ctx, c):
    for s in c["sets"]:
        for f in s[2]:
            if f[0] in ref.THREED:
                raise Skip("slow function")
    b = apply_ops(layout.write(c).encode("utf8"), c["ops"])
    d = ctx.newdir()
    data_files(d)
    open(os.path.join(d, "c.dat"), "wb").write(b)
    args = command(c, d)
    if c["prog"] in ("imfit", "multimfit"):
        args += ["--fitstat-only"]
    before = listing(d)
    r = ctx.run(c["prog"], args, d, cfg="san", cpu=100, env=ASAN)
    what = "%s with configuration\n%s\n" % (c["prog"], b.decode("latin1"))
    sane(ctx, r, what)
    if r.rc != 0:
        require(len((r.err + r.out).strip()) > 0, "%s: no message", what)
        require(listing(d) == before, "%s was refused but files were written: %s", what, sorted(set(listing(d)) - set(before)))
    try:
        want = cfgref.parse(b, c["prog"] not in ("makeimage", "makemultimages"))
        bad = any(n not in ref.SPEC and n not in ref.POINT or len(ref.SPEC.get(n) or ref.POINT[n]) != k for n, k in zip(want["names"], want["counts"]))
    except cfgref.Reject:
        bad = True
    except cfgref.DontCare:
        bad = False
    if bad:
        require(r.rc != 0, "%s must be refused but was accepted\n%s", what, r.tail())
    ctx.note(nontrivial=True, tag=c["prog"])
    ctx.note(tag="refused" if r.rc else "accepted")


# ---- (4) image-description files --------------------------------------------------------------------------------------
INFO_LINES = ["DATA data.fits", "MASK mask.fits", "ERROR err.fits", "PSF psf.fits", "NCOLS 9", "NROWS 8", "NCOLS,NROWS 9,8", "GAIN 4.5", "READNOISE 0.5", "NCOMBINED 2", "EXPTIME 10", "ORIGINAL_SKY 3.5",
              "WEIGHT 1.0", "PIXEL_SCALE 1.0", "IMAGE_PA 10.0 fixed", "FLUX_SCALE 1.2 0.5,2.0", "X0 4.0", "Y0 4.5 1,8", "MASK_ZERO_IS_GOOD", "ERRORS_ARE_SIGMAS",
              "FUNCTIONS_START\nX0 3.0\nY0 4.0\nFUNCTION FlatSky\nI_sky 2.0", "OVERSAMPLED_PSF psf.fits\nOVERSAMPLE_SCALE 2\nOVERSAMPLED_REGION 2:5,2:5"]
INFO_BAD = ["DATA", "GAIN", "GAIN abc", "GAIN -1", "GAIN nan", "READNOISE x", "NCOMBINED 1.5", "NCOMBINED 0", "EXPTIME 0", "NCOLS abc", "NCOLS 0", "NCOLS -4", "NROWS 1e9x", "NCOLS,NROWS 9", "NCOLS,NROWS a,b",
            "PIXEL_SCALE", "PIXEL_SCALE abc", "IMAGE_PA nan", "FLUX_SCALE 1 2", "FLUX_SCALE 1 a,b", "X0 q", "Y0 3 1,x", "FUNCTIONS_START\nX0 3\nFUNCTION FlatSky\nI_sky 2", "FUNCTIONS_START\nX0 3\nY0 3\nFUNCTION NoSuch\nI 2",
            "FUNCTIONS_START\nX0 3\nY0 3\nFUNCTION FlatSky", "FUNCTIONS_START\nX0 3\nY0 3\nFUNCTION FlatSky\nI_sky 2\nI_sky 3", "FUNCTIONS_START\nX0 3\nY0 3", "FUNCTIONS_START"]


@st.composite
def info_case(draw):
    prog = draw(st.sampled_from(["multimfit", "makemultimages"]))
    n = draw(st.integers(1, 3))
    imgs = []
    for i in range(n):
        L = ["IMAGE_START", "DATA data.fits"] if prog == "multimfit" else ["IMAGE_START", "NCOLS 9", "NROWS 8"]
        body = draw(st.lists(st.sampled_from([l for l in INFO_LINES if not l.startswith(("FUNCTIONS", "DATA", "NCOLS", "NROWS"))]), max_size=4, unique=True))
        if draw(st.integers(0, 3)) == 0:
            body.append("FUNCTIONS_START\nX0 3.0\nY0 4.0\nFUNCTION FlatSky\nI_sky 2.0")
        imgs.append(L + body)
    c = dict(prog=prog, imgs=imgs, bad=None, ops=[])
    k = draw(st.integers(0, 2))
    if k == 0:
        c["bad"] = [draw(st.integers(0, n - 1)), draw(st.sampled_from(INFO_BAD))]
    elif k == 1:
        c["ops"] = draw(edit_case())["ops"]
    return c


def run_info(ctx, c):
    imgs = [list(l) for l in c["imgs"]]
    if c["bad"]:
        i, b = c["bad"]
        if b.startswith("FUNCTIONS") or True:
            imgs[i] = [l for l in imgs[i] if not l.startswith("FUNCTIONS")] + [b]
        if b == "FUNCTIONS_START" and any(True for _ in [0]):
            pass
    t = "\n".join("\n".join(l) for l in imgs) + "\n"
    b = apply_ops(t.encode("utf8"), c["ops"])
    d = ctx.newdir()
    data_files(d)
    fits.write(os.path.join(d, "mask.fits"), np.zeros((NY, NX)))
    fits.write(os.path.join(d, "err.fits"), np.full((NY, NX), 2.0))
    open(os.path.join(d, "c.dat"), "w").write("X0 4.5\nY0 4.0\nFUNCTION Exponential\nPA 10\nell 0.2\nI_0 100\nh 2\n")
    args = command(dict(prog=c["prog"]), d)
    open(os.path.join(d, "info.dat"), "wb").write(b)
    if c["prog"] == "multimfit":
        args += ["--fitstat-only"]
    before = listing(d)
    r = ctx.run(c["prog"], args, d, cfg="san", cpu=100, env=ASAN)
    what = "%s with image-info file\n%s\n" % (c["prog"], b.decode("latin1"))
    sane(ctx, r, what)
    if r.rc != 0:
        require(len((r.err + r.out).strip()) > 0, "%s: no message", what)
        require(listing(d) == before, "%s was refused but files were written: %s", what, sorted(set(listing(d)) - set(before)))
    if c["bad"]:
        require(r.rc != 0, "%s must be refused (%r) but was accepted\n%s", what, c["bad"][1], r.tail())
    elif not c["ops"]:
        require(r.rc == 0, "%s is valid but was refused\n%s", what, r.tail())
    ctx.note(nontrivial=bool(c["bad"] or c["ops"]), tag=c["prog"])
    ctx.note(tag="defect" if c["bad"] else "edited" if c["ops"] else "valid")
    ctx.note(tag="refused" if r.rc else "accepted")


# ---- (5) saved MCMC state ----------------------------------------------------------------------------------------------
CHAINK = ["valid", "number", "token", "short", "long", "outside", "fixedchanged", "nan", "nonl", "removed", "emptyfile", "comments", "ops"]


@st.composite
def chain_case(draw):
    return dict(kind=draw(st.sampled_from(CHAINK)), chain=draw(st.integers(1, 3)), row=draw(st.integers(0, 4)), col=draw(st.integers(0, 999)), tok=draw(st.sampled_from(BADNUM)),
                ops=draw(edit_case())["ops"] if draw(st.booleans()) else [["cut", draw(st.integers(0, 9999)), 0]], gens=draw(st.integers(3, 6)), more=draw(st.integers(0, 4)))


def rows_of(b):
    return [l for l in b.decode("latin1").split("\n") if l and not l.startswith("#")]


def run_chain(ctx, c):
    d = ctx.newdir()
    data_files(d)
    open(os.path.join(d, "c.dat"), "w").write("X0 4.5 4,5\nY0 4.0 fixed\nFUNCTION Exponential\nPA 10 fixed\nell 0.2 0.1,0.3\nI_0 100 90,110\nh 2 1.5,2.5\n")
    base = ["data.fits", "-c", "c.dat", "-o", "chain", "--nchains", "3", "--seed", "5", "--max-threads", "1"]
    r = ctx.run("imfit-mcmc", base + ["--max-chain-length", str(c["gens"])], d, cfg="san", cpu=60, env=ASAN)
    require(r.rc == 0, "imfit-mcmc failed\n%s", r.tail())
    p = os.path.join(d, "chain.%d.txt" % c["chain"])
    b = open(p, "rb").read()
    L = b.decode("latin1").split("\n")
    ri = [i for i, l in enumerate(L) if l and not l.startswith("#")]
    require(len(ri) == c["gens"], "%d rows for %d generations", len(ri), c["gens"])
    i = ri[c["row"] % len(ri)]
    t = L[i].split()
    require(len(t) == 6 + 1 + 1 + 3 + 1, "row has %d columns: %s", len(t), L[i])
    k = c["kind"]
    bad = True
    if k == "valid":
        bad = False
    elif k == "token":
        t[c["col"] % len(t)] = c["tok"]
        if cfgref.NUM.match(c["tok"]):
            raise Skip("number")
    elif k == "number":
        t[[6, 7][c["col"] % 2]] = ["nan", "7"][c["col"] % 2]
    elif k == "short":
        t = t[:c["col"] % len(t)]
        if not t:
            bad = None
    elif k == "long":
        t.append("1.0")
    elif k == "outside":
        j = [0, 3, 4, 5][c["col"] % 4]
        t[j] = "%#.10g" % ([4, 0, 0, 0.1, 90, 1.5][j] * 0.99 if c["col"] % 3 else [5, 0, 0, 0.3, 110, 2.5][j] * 1.01)
    elif k == "fixedchanged":
        j = [1, 2][c["col"] % 2]
        t[j] = "%#.10g" % (float(t[j]) * 1.001)
    elif k == "nan":
        t[c["col"] % 7] = "nan"
    L[i] = " ".join(t)
    nb = "\n".join(L).encode("latin1")
    if k == "nonl":
        nb = nb.rstrip(b"\n")
    elif k == "emptyfile":
        nb = b""
    elif k == "comments":
        nb = b"# nothing\n#\n"
    elif k == "ops":
        nb = apply_ops(b, c["ops"])
        bad = None
    if k == "removed":
        os.remove(p)
    else:
        open(p, "wb").write(nb)
    snap = {f: open(os.path.join(d, f), "rb").read() for f in listing(d)}
    r = ctx.run("imfit-mcmc", base + ["--append", "--max-chain-length", str(c["gens"] + c["more"])], d, cfg="san", cpu=60, env=ASAN)
    what = "imfit-mcmc --append with a saved chain (%s, chain %d)\n%s\n" % (k, c["chain"], "\n".join(nb.decode("latin1").split("\n")[-8:]))
    sane(ctx, r, what)
    if bad is True:
        require(r.rc != 0, "%s must be refused but was accepted\n%s", what, r.tail())
    if bad is False:
        require(r.rc == 0, "%s is valid but was refused\n%s", what, r.tail())
    if r.rc != 0:
        require(len((r.err + r.out).strip()) > 0, "%s: no message", what)
        require({f: open(os.path.join(d, f), "rb").read() for f in listing(d)} == snap, "%s was refused but files were changed", what)
    else:      # whatever was accepted, the chains go on from valid states
        for j in (1, 2, 3):
            rows = rows_of(open(os.path.join(d, "chain.%d.txt" % j), "rb").read())
            if k == "valid":
                require(len(rows) == c["gens"] + c["more"], "chain %d has %d rows after %d + %d generations", j, len(rows), c["gens"], c["more"])
            v = [float(x) for x in rows[-1].split()]
            lo, hi = [4, 4, 10, 0.1, 90, 1.5], [5, 4, 10, 0.3, 110, 2.5]
            require(all(a - 1e-6 <= x <= b + 1e-6 for x, a, b in zip(v, lo, hi)), "%s: chain %d ends outside the limits: %s", what, j, rows[-1])
    ctx.note(nontrivial=k != "valid", tag=k)
    ctx.note(tag="refused" if r.rc else "accepted")


# ---- (6) option values --------------------------------------------------------------------------------------------------
VALS = ["", "-1", "0", "1", "2", "abc", "nan", "inf", "1e400", "-1e400", "99999999999999999999", "2147483648", "-2147483649", "1.5", ".5", "1e3", " 3", "3 ", "+3", "0x10", "--", "-", "=", "3=4",
        "data.fits", "nosuch.fits", "data.fits[2:5,2:5]", "data.fits[", "data.fits[]", "data.fits[9:2,1:3]", "data.fits[0:3,1:3]", "data.fits[1:99,*]", "data.fits[*,*]", "data.fits[7]", "data.fits[a:b,c:d]",
        "c.dat", "psf.fits", "1:3,1:3", "2:5,3:4", "5:2,1:3", "1:3", "*,*", "0:0,0:0", "1:99,1:99", "-3:4,1:2", "SBPLX", "COBYLA", "NM", "xx", "%s%n%d", "A" * 2000, "é", "/", ".", "/dev/null", "[", "1,2", "#"]
OPTS = {
    "imfit": (["exptime", "gain", "mask", "max-threads", "ncombined", "nlopt", "noise", "psf", "readnoise", "seed", "sky", "ftol", "overpsf", "overpsf_region", "overpsf_scale", "config", "c", "save-params", "save-model"],
              ["cashstat", "chisquare-only", "errors-are-variances", "errors-are-weights", "mask-zero-is-bad", "mlr", "model-errors", "no-normalize", "no-subsampling", "quiet", "silent", "loud"]),
    "makeimage": (["max-threads", "ncols", "nrows", "psf", "refimage", "zero-point", "overpsf", "overpsf_region", "overpsf_scale", "estimation-size", "output-functions", "debug", "timing", "o", "output"],
                  ["no-normalize", "no-subsampling", "nosave", "print-fluxes", "printimage", "save-expanded"]),
    "imfit-mcmc": (["burnin-length", "exptime", "gain", "gaussian-offset", "gelman-evals", "gelman-rubin-limit", "mask", "max-threads", "nchains", "ncombined", "noise", "psf", "readnoise", "seed", "sky", "uniform-offset", "overpsf", "overpsf_region", "overpsf_scale"],
                   ["cashstat", "errors-are-variances", "mask-zero-is-bad", "mlr", "model-errors", "no-normalize", "append", "quiet"]),
    "multimfit": (["max-threads", "nlopt", "seed", "ftol", "image-info", "config"], ["cashstat", "mlr", "model-errors", "quiet", "nosubsampling", "de", "nm"]),
    "makemultimages": (["max-threads", "image-info", "o", "output-functions", "debug", "timing"], ["nosave", "nosubsampling", "save-expanded"]),
}
NUMERIC = ["exptime", "gain", "max-threads", "ncombined", "readnoise", "seed", "sky", "ftol", "ncols", "nrows", "zero-point", "estimation-size", "debug", "timing", "burnin-length", "gaussian-offset", "gelman-evals",
           "gelman-rubin-limit", "nchains", "uniform-offset", "overpsf_scale"]
NEVERNUM = ["abc", "nan", "inf", "3=4", "data.fits", "c.dat", "1:3,1:3", "SBPLX", "xx", "%s%n%d", "A" * 2000, "é", "/", ".", "[", "1,2", "--", "-", "1e400"]


@st.composite
def opt_case(draw):
    prog = draw(st.sampled_from(list(OPTS)))
    o, f = OPTS[prog]
    args = [[draw(st.sampled_from(o)), draw(st.sampled_from(VALS))] for _ in range(draw(st.integers(1, 3)))]
    fl = draw(st.lists(st.sampled_from(f), max_size=2, unique=True))
    return dict(prog=prog, args=args, flags=fl, eq=draw(st.booleans()), pos=draw(st.integers(0, 3)))


def run_opt(ctx, c):
    d = ctx.newdir()
    data_files(d)
    t = "X0 4.5 4,5\nY0 4.0 3,5\nFUNCTION FlatSky\nI_sky 50 40,60\n"
    open(os.path.join(d, "c.dat"), "w").write(t)
    args = command(dict(prog=c["prog"]), d)
    if c["prog"] in ("imfit", "multimfit"):
        args += ["--fitstat-only"]
    names = [a for a, _ in c["args"]]
    # the first value of a repeated option counts: drop the standard one
    for n in names:
        for s in ("-" + n, "--" + n):
            if s in args:
                i = args.index(s)
                del args[i:i + 2]
    ex = []
    for n, v in c["args"]:
        n = ("-" if len(n) == 1 else "--") + n
        ex += [n + "=" + v] if c["eq"] and len(n) > 2 else [n, v]
    ex += ["--" + f for f in c["flags"]]
    k = min(c["pos"], len(args))
    while k > 0 and k < len(args) and args[k - 1].startswith("-"):
        k -= 1
    args = args[:k] + ex + args[k:]
    for n, v in c["args"]:
        if n in ("ncols", "nrows", "estimation-size", "nchains", "max-threads") and re.match(r"^\d{5,}$", v):
            raise Skip("resource request")
    before = listing(d)
    r = ctx.run(c["prog"], args, d, cfg="san", cpu=100, env=ASAN)
    what = "%s %s\n" % (c["prog"], " ".join(repr(a) for a in args)[:3000])
    sane(ctx, r, what)
    first = {}
    for n, v in c["args"]:
        first.setdefault(n, v)
    must = [(n, v) for n, v in first.items() if n in NUMERIC and v in NEVERNUM]
    if must:
        require(r.rc != 0, "%swas accepted although %s is not a valid value\n%s", what, must[0], r.tail())
        require(listing(d) == before, "%swas refused but files were written: %s", what, sorted(set(listing(d)) - set(before)))
    ctx.note(nontrivial=True, tag=c["prog"])
    ctx.note(tag="refused" if r.rc else "accepted")


CHECK = dict(
    property="P11", needs={"san": (("imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages"), True)},
    rule="a case is a configuration, image-info or chain file with one planted defect or up to five random edits, or a command line with random option values; non-trivial when a defect, edit or option value is present",
    assumptions=["AddressSanitizer and UndefinedBehaviorSanitizer stand for memory errors and undefined behaviour", "text whose meaning the documentation leaves open (hexadecimal numbers, control characters, one-character lines, X0 or FUNCTION inside an optional-parameter section) must not crash but may be accepted or refused"],
    components=[
        Component("defect", defect_case(), run_defect, 700, 60000),
        Component("edit", edit_case(), run_edit, 3000, 600000),
        Component("programs", cli_case(), run_cli, 300, 30000),
        Component("image-info", info_case(), run_info, 400, 40000),
        Component("saved-chain", chain_case(), run_chain, 120, 12000),
        Component("options", opt_case(), run_opt, 500, 50000),
    ])
