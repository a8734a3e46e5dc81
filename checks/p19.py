"""P19: command-line options take effect exactly, in any position and spelling, and override the configuration file."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, ref, fitgen as F, models as M, statref as S
from imv.harness import Component, require, close, Violation, Skip
from checks import p15, p17, p20

# ---------------------------------------------------------------- the parser

WORD = st.sampled_from(["a", "b", "gain", "x-y", "out_1", "n"])
VAL = st.sampled_from(["v", "-3", "--gain", "1e5", "a=b", "=", "x[1:2,3:4]", "", "two words", "-", "#", "é"])


@st.composite
def parser_case(draw):
    names = draw(st.permutations(["a", "b", "gain", "x-y", "out_1", "n", "gainer", "v", "q", "overpsf", "overpsf_scale"]))
    k = 0
    defs = []
    for kind in range(3):
        for _ in range(draw(st.integers(0, 3))):
            if k + 2 > len(names):
                break
            two = draw(st.integers(0, 3)) == 0
            defs.append([kind, [names[k], names[k + 1]] if two else [names[k]]])
            k += 2 if two else 1
    known = [n for _, ns in defs for n in ns]
    argv = []
    for _ in range(draw(st.integers(0, 9))):
        how = draw(st.sampled_from(["opt", "opt", "opt", "opt=", "opt=", "arg", "arg", "odd"]))
        nm = draw(st.sampled_from(known)) if known and draw(st.integers(0, 11)) else draw(WORD)
        dash = draw(st.sampled_from(["--", "--", "--", "-", "---"]))
        if how == "opt":
            argv.append(dash + nm)
            if draw(st.booleans()):
                argv.append(draw(VAL))
        elif how == "opt=":
            argv.append(dash + nm + "=" + draw(VAL))
        elif how == "arg":
            argv.append(draw(st.sampled_from(["img.fits", "c.dat", "img.fits[1:3,4:5]", "a", "gain", "x=y", ""])))
        else:
            argv.append(draw(st.sampled_from(["-", "--", "--=", "-=3", "--no-such", "-zz=1"])))
    return dict(defs=defs, argv=argv, err=draw(st.sampled_from([1, 1, 1, 0])))


def parse_model(c):
    """What the parser is documented to make of a command line."""
    kinds = {}
    for k, ns in c["defs"]:
        for n in ns:
            kinds[n] = (k, tuple(ns))
    flags, vals, args = set(), {}, []
    empty = not c["argv"]
    it = iter(c["argv"])
    for a in it:
        if not a.startswith("-"):
            args.append(a)
            continue
        body = a.lstrip("-")
        if not body:
            return None
        name, eq, v = body.partition("=")
        if name not in kinds:
            if c["err"]:
                return None
            continue
        k, ns = kinds[name]
        if k == 0:
            if eq:
                return None
            flags.add(ns)
            continue
        if eq:
            if not v:
                return None
        else:
            v = next(it, None)
            if v is None:
                return None
        vals.setdefault(ns, []).append(v)
    return empty, flags, vals, args


def run_parser(ctx, c):
    w = ctx.worker()
    defs = sorted(c["defs"], key=lambda d: d[0])
    names = ["\n".join(ns).encode() for _, ns in defs]
    counts = [sum(d[0] == k for d in defs) for k in range(3)]
    r = w.call("cline", c["err"], *counts, len(c["argv"]), *(names + [a.encode() for a in c["argv"]]))
    want = parse_model(c)
    what = "options %s, command line %s" % (c["defs"], c["argv"])
    if want is None:
        require(r[0] < 0, "%s: accepted", what)
        ctx.note(nontrivial=True, tag="rejected")
        return
    empty, flags, vals, args = want
    require(r[0] == 0, "%s: rejected with %d", what, r[0])
    require(bool(r[1]) == empty, "%s: reported as %s", what, "empty" if r[1] else "not empty")
    got = {}
    last = None
    for l in r[2].decode().split("\n"):
        if l.startswith("\t"):
            got[last].append(l[1:])
        elif l:
            last = l
            got[last] = []
    exp = {}
    for k, ns in defs:
        for n in ns:
            if k == 0 and tuple(ns) in flags:
                exp[n] = []
            elif k and tuple(ns) in vals:
                exp[n] = vals[tuple(ns)]
    require(got == exp, "%s: set %s, expected %s", what, got, exp)
    ga = r[3].decode().split("\n")[:-1]
    require(ga == args, "%s: arguments %s, expected %s", what, ga, args)
    ctx.note(nontrivial=len(exp) + len(args) > 1, tag="accepted")


# ---------------------------------------------------------------- shuffling

def spelled(r, groups):
    """One command line from option groups (lists): any order, '=' or a space."""
    out = []
    for i in r.permutation(len(groups)):
        g = [str(x) for x in groups[i]]
        if len(g) == 2 and g[0].startswith("-") and r.random() < 0.5 and g[1]:
            g = [g[0] + "=" + g[1]]
        out += g
    return out


def number(r, v):
    """The same number in another notation."""
    s = repr(v)
    t = ["%.17g" % v, s, "%.16e" % v, s + "0" if "." in s and "e" not in s else s, "0" + s if s[0] != "-" else s]
    if 0 < abs(v) < 1 and s.startswith("0."):
        t.append(s[1:])
    return t[int(r.integers(0, len(t)))]


KEYS = ["GAIN", "READNOISE", "EXPTIME", "NCOMBINED", "ORIGINAL_SKY"]
OPTS = ["gain", "readnoise", "exptime", "ncombined", "sky"]
DEF = [1.0, 0.0, 1.0, 1, 0.0]
BADCFG = ["-1", "x", "1.5x", "-0.5", "1e"]


@st.composite
def sources(draw):
    """Per detector setting: its value and whether it is left out, in the configuration file, on the command line or in both."""
    val = [draw(gens.logfl(0.5, 5, (1, 2.5))), draw(st.sampled_from([0.0, 2.0, 5.25, 0.3])), draw(gens.logfl(0.5, 20, (1, 3.0))), draw(st.sampled_from([1, 2, 3, 7])), draw(st.sampled_from([0.0, 5.0, 30.5, 100.0, 250.0]))]
    where = [draw(st.sampled_from(["none", "config", "cli", "both", "both"])) for _ in val]
    other = [draw(st.sampled_from(["4.25", "0.75", "17.5", "130"])) if k != 3 else draw(st.sampled_from(["5", "11"])) for k in range(5)]
    junk = [draw(st.integers(0, 4)) == 0 for _ in val]
    return dict(val=val, where=where, other=other, junk=junk, jv=draw(st.sampled_from(BADCFG)), xtra=draw(st.sampled_from([None, None, "NCOLS 7", "SEEING 1.5"])))


def effective(s):
    return [DEF[k] if w == "none" else s["val"][k] for k, w in enumerate(s["where"])]


def header_and_options(s, r):
    head, opts = [], []
    for k, w in enumerate(s["where"]):
        v = str(s["val"][k]) if k == 3 else number(r, s["val"][k])
        if w == "config":
            head.append("%s   %s" % (KEYS[k], v))
        if w == "both":
            head.append("%s   %s" % (KEYS[k], s["jv"] if s["junk"][k] else s["other"][k]))
        if w in ("cli", "both"):
            opts.append(["--" + OPTS[k], v])
    if s["xtra"]:
        head.append(s["xtra"])
    return [head[i] for i in r.permutation(len(head))], opts


def group(flat):
    """['--mask', 'm', '--cashstat'] -> [['--mask', 'm'], ['--cashstat']], without the detector settings."""
    out = []
    for t in flat:
        if t.startswith("--"):
            out.append([t])
        else:
            out[-1].append(t)
    return [g for g in out if g[0][2:] not in OPTS]


# ---------------------------------------------------------------- imfit --fitstat-only

@st.composite
def stat_case(draw):
    c = draw(F.scene(maxn=9))
    c["src"] = draw(sources())
    c["ch"] = effective(c["src"])
    c["order"] = draw(st.integers(0, 2 ** 31))
    c["norm"] = draw(st.booleans())
    c["only"] = draw(st.sampled_from(["--fitstat-only", "--chisquare-only"]))
    c["cfgopt"] = draw(st.sampled_from(["-c", "--config", "-c", "default"]))
    c["save"] = draw(st.lists(st.sampled_from(["model", "residual", "weights", "params"]), unique=True))
    c["noise_opts"] = draw(st.lists(st.sampled_from([["--quiet"], ["--silent"], ["--loud"], ["--max-threads", "1"], ["--max-threads", "3"], ["--seed", "17"], ["--ftol", "1e-4"], ["--nm"], ["--nlopt", "COBYLA"], ["--de"]]), unique_by=lambda g: g[0]))
    if c["kind"] == "pmlr":
        c["mlr"] = draw(st.sampled_from(["--mlr", "--poisson-mlr"]))
    return c


def library(w, mid, c, P, sets=None):
    return F.library(w, mid, c, sets=sets, norm=c["norm"], data=P.data, chars=c["ch"], mask=P.mask, mfmt=c["mfmt"], err=P.err, errtype=F.ERRT.get(c["kind"], 100), stat=c["kind"] if c["kind"] in ("cash", "pmlr", "model") else None)


def put_config(d, c, P, r):
    head, opts = header_and_options(c["src"], r)
    open(os.path.join(d, "imfit_config.dat" if c.get("cfgopt") == "default" else "c.dat"), "w").write(F.start_config(c, P, header=head))
    return opts + ([] if c.get("cfgopt") == "default" else [[c.get("cfgopt", "-c"), "c.dat"]])


def run_stat(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    r = np.random.default_rng(c["order"])
    sets = F.with_values(c["sets"], P.start)
    library(w, 60, c, P, sets=sets)
    want = F.stat_of(w, 60, c, P, P.start)
    img = M.image(w, 60, list(P.start), c["nx"], c["ny"])
    ok = np.isfinite(want) and F.in_domain(c, P, img) and int(P.good.sum()) > P.nfree + 1
    if not ok:
        M.free(w, 60)
        raise Skip("undefined")
    F.stat_of(w, 60, c, P, P.start)
    wimg = w.call("mweights", 60)[0].reshape(c["ny"], c["nx"]) if c["kind"] not in ("cash", "pmlr") else None
    M.free(w, 60)
    d = ctx.newdir()
    data, opts = F.files(d, c, P)
    g = group(opts) + put_config(d, c, P, r) + [[data], [c["only"]]] + c["noise_opts"]
    if not c["norm"]:
        g.append(["--no-normalize"])
    if c["kind"] == "pmlr":
        g = [[c["mlr"]] if x == ["--poisson-mlr"] else x for x in g]
    names = {"model": "m.fits", "residual": "r.fits", "weights": "w.fits", "params": "p.dat"}
    g += [["--save-" + s, names[s]] for s in c["save"]]
    a = spelled(r, g)
    before = p20.files_in(d)
    q = ctx.run("imfit", a, d)
    what = "imfit %s with %s in the configuration file" % (" ".join(a), [l for l in open(os.path.join(d, "imfit_config.dat" if c["cfgopt"] == "default" else "c.dat")).read().split("\n") if l.split()[:1] and l.split()[0] in KEYS])
    require(q.rc == 0, "%s fails: %s", what, q.tail())
    t = F.TITLE.get(c["kind"], "CHI-SQUARE")
    m = re.findall(r"^\s*%s = (\S+)" % t, q.out, re.M)
    require(len(m) == 1, "%s prints no %s line", what, t)
    tol = 0.51 * 10.0 ** -(len(m[0].split(".")[1].split("e")[0]) if "." in m[0] else 0) * (10.0 ** int(m[0].split("e")[1]) if "e" in m[0] else 1) + 1e-9 * abs(want)
    require(abs(float(m[0]) - want) <= tol, "%s prints the statistic %s; with these settings it is %r", what, m[0], want)
    m = re.findall(r"^AIC = (\S+), BIC = (\S+)", q.out, re.M)
    require(len(m) == 1, "%s prints no AIC line", what)
    after = p20.files_in(d)
    expect = set(before) | {names[s] for s in c["save"] if s != "params"}
    require(set(after) == expect, "%s: files missing %s, unexpected %s", what, sorted(expect - set(after)), sorted(set(after) - expect))
    require(all(after[n] == before[n] for n in before), "%s changed an input file", what)
    sc = 1e-10 * float(np.abs(img).max()) if c["psf"] is not None else 0.0
    if "model" in c["save"]:
        close(fits.read(os.path.join(d, "m.fits"))[0], img, 2e-7, 1e-37 + sc, what + ": model image")
    if "residual" in c["save"]:
        close(fits.read(os.path.join(d, "r.fits"))[0], P.data - img, 2e-7, 1e-37 + sc + 1e-12 * float(np.abs(P.data).max()), what + ": residual image")
    if "weights" in c["save"] and wimg is not None:
        close(fits.read(os.path.join(d, "w.fits"))[0], wimg, 2e-7, 1e-37 + 1e-6 * bool(sc) * float(np.abs(wimg).max()), what + ": weight image")
    ctx.note(nontrivial=any(x in ("cli", "both") for x in c["src"]["where"]), tag=c["kind"])
    for k, x in enumerate(c["src"]["where"]):
        if x == "both":
            ctx.note(tag="overridden:" + KEYS[k])
    if c["psf"] is not None:
        ctx.note(tag="PSF, %s" % ("normalised" if c["norm"] else "as it is"))


# ---------------------------------------------------------------- fits

SOLVERS = p15.CLI


@st.composite
def fit_case(draw):
    sol = draw(st.sampled_from(SOLVERS + [["--de"], ["--de-lhs"]]))
    de = sol[:1] in (["--de"], ["--de-lhs"])
    c = draw(F.scene(maxn=6, limits="all" if de else "mixed", total=1 if de else 2, fixed=0.55 if de else 0.3, psf=False))
    if c["kind"] == "cash" and not sol:
        sol = ["--nm"]
    c["sol"] = sol
    c["src"] = draw(sources())
    c["ch"] = effective(c["src"])
    c["order"] = draw(st.integers(0, 2 ** 31))
    c["norm"] = True
    c["rs"] = draw(st.integers(1, 10 ** 9))
    c["ftol"] = draw(st.sampled_from([None, 1e-5, 0.001, 0.05, 1e-10]))
    c["cfgopt"] = draw(st.sampled_from(["-c", "--config"]))
    c["out"] = draw(st.sampled_from([None, None, "--quiet", "--silent", "--loud"]))
    c["save"] = draw(st.lists(st.sampled_from(["model", "residual", "weights", "params"]), unique=True))
    return c


def run_fit(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if int(P.good.sum()) - P.nfree <= 1:
        raise Skip("few pixels")
    sol = c["sol"]
    solver = "lm" if not sol else sol[1] if sol[0] == "--nlopt" else sol[0][2:]
    library(w, 61, c, P, sets=F.with_values(c["sets"], P.start))
    w.call("mthreads", 61, 1)
    # the program sees section coordinates in the file and subtracts the offset again
    lims, start = [], []
    full = F.full_limits(P)
    fs = F.shift(P.start, P.kinds, P.off)
    for v, l, k in zip(fs, full, P.kinds):
        o = P.off[0] if k == "x" else P.off[1] if k == "y" else 0
        start.append(float(gens.num(v)) - o)
        lims.append(l if l in (None, "fixed") else (float(gens.num(l[0])) - o, float(gens.num(l[1])) - o))
    Q = F.Problem()
    Q.lims = lims
    s0 = F.stat_of(w, 61, c, P, start)
    if not np.isfinite(s0) or not F.in_domain(c, P, M.image(w, 61, start, c["nx"], c["ny"])):
        M.free(w, 61)
        raise Skip("undefined")
    try:
        status, f, rep, errs, p, e, init = p15.solve(w, 61, solver, c["ftol"] or 1e-8, c["rs"], start, p15.pinfo(Q), p15.GEN)
    finally:
        M.free(w, 61)
    d = ctx.newdir()
    data, opts = F.files(d, c, P)
    r = np.random.default_rng(c["order"])
    names = {"model": "m.fits", "residual": "r.fits", "weights": "w.fits", "params": "p.dat"}
    g = group(opts) + put_config(d, c, P, r) + [[data], ["--max-threads", "1"], ["--seed", str(c["rs"])]] + ([sol] if sol else []) + ([["--ftol", number(r, c["ftol"])]] if c["ftol"] else [])
    g += [[c["out"]]] if c["out"] else []
    g += [["--save-" + s, names[s]] for s in c["save"]]
    a = spelled(r, g)
    before = p20.files_in(d)
    q = ctx.run("imfit", a, d, cpu=20)
    what = "imfit " + " ".join(a)
    if q.timeout:
        raise Skip("slow fit")
    require(q.rc == 0, "%s fails: %s", what, q.tail())
    after = p20.files_in(d)
    pn = "p.dat" if "params" in c["save"] else "bestfit_parameters_imfit.dat"
    expect = set(before) | {names[s] for s in c["save"]} | {pn}
    require(set(after) == expect, "%s: files missing %s, unexpected %s", what, sorted(expect - set(after)), sorted(set(after) - expect))
    if not (np.isfinite(f) and np.isfinite(p).all()) or re.search(r"nan|forced termination", q.out):
        raise Skip("undefined values")
    lines = F.body_lines(open(os.path.join(d, pn)).read())
    got = [float(l.split()[1]) for l in lines if not l.startswith("FUNCTION") and l.split()[0] not in KEYS and not l.startswith("OPTIONAL") and re.match(r"^\S+\s+[-+0-9.]", l)]
    require(len(got) == len(p), "%s: %d values in the parameter file, %d parameters", what, len(got), len(p))
    back = F.shift(list(p), P.kinds, P.off)
    for k, (x, y) in enumerate(zip(got, back)):
        t = F.half_ulp(y, P.kinds[k]) * 1.01 + 1e-12 * abs(y)
        require(abs(x - y) <= t, "%s: best-fit parameter %d is %r; the %s solver with ftol %s, seed %d and these settings gives %r", what, k, x, solver, c["ftol"] or 1e-8, c["rs"], y)
    t = F.TITLE.get(c["kind"], "CHI-SQUARE")
    ctx.note(nontrivial=bool(np.abs(p - np.array(start)).max() > 0), tag=solver)
    ctx.note(tag="ftol %s" % c["ftol"])


# ---------------------------------------------------------------- imfit-mcmc

@st.composite
def mcmc_case(draw):
    c = draw(F.scene(maxn=7, limits="all", total=2, max_funcs=2, fixed=0.3))
    c["src"] = draw(sources())
    c["ch"] = effective(c["src"])
    c["norm"] = draw(st.booleans()) if c["psf"] is None else True
    c["order"] = draw(st.integers(0, 2 ** 31))
    c["n"] = draw(st.sampled_from([None, 3, 4, 7]))
    c["T"] = draw(st.sampled_from([1, 2, 9, 20]))
    c["B"] = draw(st.sampled_from([None, 1, 5]))
    c["rs"] = draw(st.integers(1, 10 ** 6))
    c["root"] = draw(st.sampled_from([None, "ch", "out.x", "sub/run"]))
    c["uo"] = draw(st.sampled_from([None, None, 0.05, 0.3]))
    c["go"] = draw(st.sampled_from([None, None, 1e-3, 0.05]))
    c["out"] = draw(st.sampled_from([None, "--quiet", "--silent", "--loud"]))
    c["cfgopt"] = draw(st.sampled_from(["-c", "--config"]))
    return c


def run_mcmc(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if int(P.good.sum()) - P.nfree <= 1:
        raise Skip("few pixels")
    full = F.full_limits(P)
    if any(l not in (None, "fixed") and not l[0] < l[1] for l in full):
        raise Skip("empty limits")
    F.library(w, 62, c, sets=F.with_values(c["sets"], P.start))
    img = M.image(w, 62, list(P.start), c["nx"], c["ny"])
    M.free(w, 62)
    if not F.in_domain(c, P, img):
        raise Skip("undefined")
    outs = []
    for run in range(2):            # plain spelling and order first
        d = ctx.newdir()
        os.makedirs(os.path.join(d, "sub"))
        data, opts = F.files(d, c, P)
        r = np.random.default_rng(c["order"])
        if run == 0:
            open(os.path.join(d, "c.dat"), "w").write(F.start_config(c, P, header=["%s %s" % (k, repr(v)) for k, v in zip(KEYS, c["ch"])]))
            g = [["-c", "c.dat"]]
        else:
            g = put_config(d, c, P, r)
        g += group(opts) + [[data], ["--max-threads", "1"], ["--seed", c["rs"]], ["--max-chain-length", c["T"]]]
        g += [["--nchains", c["n"]]] if c["n"] else []
        g += [["--burnin-length", c["B"]]] if c["B"] else []
        g += [["--uniform-offset", c["uo"] if run == 0 else number(r, c["uo"])]] if c["uo"] is not None else []
        g += [["--gaussian-offset", c["go"] if run == 0 else number(r, c["go"])]] if c["go"] is not None else []
        g += [["-o" if run == 0 else ["-o", "--output"][c["order"] % 2], c["root"]]] if c["root"] else []
        g += [[c["out"]]] if c["out"] and run else []
        a = spelled(r, g) if run else [str(x) for y in g for x in y]
        before = p20.files_in(d)
        q = ctx.run("imfit-mcmc", a, d, cpu=10)
        if q.timeout:
            raise Skip("slow or no finite likelihood")
        what = "imfit-mcmc " + " ".join(a)
        require(q.rc == 0, "%s fails: %s", what, q.tail())
        after = p20.files_in(d)
        n = c["n"] or max(3, P.nfree)
        root = c["root"] or "mcmc_out"
        expect = {"%s.%d.txt" % (root, k + 1) for k in range(n)}
        require(set(after) - set(before) == expect and all(after[x] == before[x] for x in before), "%s: files written %s, expected %s", what, sorted(set(after) - set(before)), sorted(expect))
        chains = []
        for k in range(n):
            head, rows = p17.read_chain(os.path.join(d, "%s.%d.txt" % (root, k + 1)), what)
            require(len(rows) == c["T"], "%s: chain %d has %d generations, asked for %d", what, k + 1, len(rows), c["T"])
            chains.append(rows)
        outs.append((chains, d, what))
    require(outs[0][0] == outs[1][0], "%s and %s give different chains", outs[0][2], outs[1][2])
    A = np.array(outs[0][0])
    seen = p17.check_likelihood(ctx, w, outs[1][2], A, c, P, np.random.default_rng(1), count=12)
    ctx.note(nontrivial=seen > 3, tag="chains %s" % c["n"])


# ---------------------------------------------------------------- things that must be refused

POSREAL = ["-1", "abc", "1.5x", "", "1,5", "-2e3", "--", "e5", "1e", "0x", "nan", "inf", " 3"]
POSREAL0 = POSREAL + ["0", "0.0"]
POSINT = ["0", "-3", "abc", "1.5", "1e3", "", "12a", "99999999999", "--", "+-1", "0.0"]
BAD = {
    "imfit": {"gain": POSREAL0, "readnoise": POSREAL, "exptime": POSREAL0, "ncombined": POSINT, "sky": POSREAL, "ftol": POSREAL, "bootstrap": POSINT, "max-threads": POSINT, "seed": ["0", "-3", "abc", "1.5", "", "99999999999999999999"],
              "nlopt": ["FOO", "nm", "NMx", "", "LM", "COBYLA2"], "overpsf_scale": POSINT},
    "imfit-mcmc": {"gain": POSREAL0, "readnoise": POSREAL, "exptime": POSREAL0, "ncombined": POSINT, "sky": POSREAL, "max-threads": POSINT, "seed": ["0", "-3", "abc", "1.5", "", "99999999999999999999"], "nchains": POSINT + ["1", "2"],
                   "max-chain-length": POSINT, "burnin-length": POSINT, "gelman-evals": POSINT, "gelman-rubin-limit": POSREAL, "uniform-offset": POSREAL, "gaussian-offset": POSREAL, "overpsf_scale": POSINT},
}
FLAGS = {"imfit": ["errors-are-variances", "mask-zero-is-bad", "no-normalize", "no-subsampling", "model-errors", "fitstat-only", "nm", "quiet"], "imfit-mcmc": ["mask-zero-is-bad", "no-subsampling", "model-errors", "append", "quiet"]}
FILES = {"imfit": ["config", "c", "noise", "mask", "psf", "overpsf", "overpsf_region", "save-params", "save-model", "save-residual", "save-weights", "save-bootstrap", "gain", "seed", "nlopt"],
         "imfit-mcmc": ["config", "c", "output", "o", "noise", "mask", "psf", "gain", "nchains", "seed"]}
UNKNOWN = ["--nosuch", "--gains", "--gai", "-x", "--save-modell=m.fits", "--cash-stat", "--Gain=3", "--save_model=m.fits", "--n", "--=3", "-", "--", "--ncols=10"]
CFGBAD = {"GAIN": POSREAL0, "READNOISE": POSREAL, "EXPTIME": POSREAL0, "NCOMBINED": POSINT, "ORIGINAL_SKY": POSREAL}


@st.composite
def reject_case(draw):
    prog = draw(st.sampled_from(["imfit", "imfit", "imfit-mcmc"]))
    how = draw(st.sampled_from(["value"] * 6 + ["unknown", "missing", "flag=", "config", "config", "file"]))
    c = dict(prog=prog, how=how, order=draw(st.integers(0, 2 ** 31)), only=draw(st.booleans()))
    if how == "value":
        c["opt"] = draw(st.sampled_from(sorted(BAD[prog])))
        c["val"] = draw(st.sampled_from(BAD[prog][c["opt"]]))
        c["eq"] = draw(st.booleans())
    elif how == "unknown":
        c["opt"] = draw(st.sampled_from(UNKNOWN))
    elif how == "missing":
        c["opt"] = draw(st.sampled_from(FILES[prog]))
        c["eq"] = draw(st.booleans())
    elif how == "flag=":
        c["opt"] = draw(st.sampled_from(FLAGS[prog]))
        c["val"] = draw(st.sampled_from(["1", "yes", "", "false"]))
    elif how == "config":
        c["opt"] = draw(st.sampled_from(sorted(CFGBAD)))
        c["val"] = draw(st.sampled_from([v.strip() for v in CFGBAD[c["opt"]] if v.strip() and v not in ("1,5", " 3")]))
    else:
        c["opt"] = draw(st.sampled_from(["--mask", "--noise", "--psf", "data", "-c"]))
    return c


def run_reject(ctx, c):
    d = ctx.newdir()
    r = np.random.default_rng(c["order"])
    data = 100 + 10 * np.random.default_rng(3).normal(size=(6, 7))
    fits.write(os.path.join(d, "d.fits"), data)
    cfg = ["X0 3 1,6", "Y0 3 1,6", "FUNCTION FlatSky", "I_sky  100   50,150"]
    if c["how"] == "config":
        cfg.insert(0, "%s  %s" % (c["opt"], c["val"]))
    open(os.path.join(d, "c.dat"), "w").write("\n".join(cfg) + "\n")
    g = [["d.fits"], ["-c", "c.dat"], ["--max-threads", "1"]]
    if c["prog"] == "imfit-mcmc":
        g += [["--max-chain-length", "3"], ["--nchains", "3"], ["--seed", "5"], ["-o", "ch"]]
    else:
        g += [["--save-params", "p.dat"], ["--save-model", "m.fits"]] + ([["--fitstat-only"]] if c["only"] else [])
    if c["how"] == "value":
        o = "--" + c["opt"]
        g = [x for x in g if x[0] != o]
        if c["opt"] == "overpsf_scale":
            fits.write(os.path.join(d, "os.fits"), np.ones((3, 3)))
            g += [["--overpsf", "os.fits"], ["--overpsf_region", "1:3,1:3"]]
        bad = [o + "=" + c["val"]] if c["eq"] else [o, c["val"]]
    elif c["how"] == "unknown":
        bad = [c["opt"]]
    elif c["how"] == "flag=":
        bad = ["--%s=%s" % (c["opt"], c["val"])]
    elif c["how"] == "file":
        bad = []
        if c["opt"] == "data":
            g = [["no.fits"] if x == ["d.fits"] else x for x in g]
        elif c["opt"] == "-c":
            g = [["-c", "no.dat"] if x[0] == "-c" else x for x in g]
        else:
            bad = [c["opt"], "no.fits"]
    else:
        bad = []
    good = spelled(np.random.default_rng(c["order"]), g)
    q = ctx.run(c["prog"], good, d) if c["how"] in ("value", "unknown", "missing", "flag=") and c["order"] % 8 == 0 and c["opt"] != "overpsf_scale" else None
    if q is not None:
        require(q.rc == 0, "%s %s fails: %s", c["prog"], good, q.tail())
        d2 = ctx.newdir()
        for f in ("d.fits", "c.dat"):
            os.link(os.path.join(d, f), os.path.join(d2, f))
        d = d2
    if c["how"] == "missing":
        o = ("-" if len(c["opt"]) == 1 else "--") + c["opt"]
        g = [x for x in g if x[0] not in (o,)]
        a = spelled(r, g)
        if c["eq"]:
            k = int(r.integers(0, 2)) * len(a)
            a = a[:k] + [o + "="] + a[k:]
        else:
            a += [o]
    else:
        if c["how"] == "value" and not c["eq"]:
            g.append(["\0"])
        elif bad:
            g.append(["\0"])
        a = []
        for t in spelled(r, g):
            a += bad if t == "\0" else [t]
    before = p20.files_in(d)
    q = ctx.run(c["prog"], a, d)
    what = "%s %s%s" % (c["prog"], " ".join(repr(x) if not x or " " in x else x for x in a), " with %s %s in the configuration file" % (c["opt"], c["val"]) if c["how"] == "config" else "")
    require(not q.crashed and not q.timeout, "%s crashed: %s", what, q.tail())
    require(q.rc != 0, "%s: accepted", what)
    after = p20.files_in(d)
    require(after == before, "%s fails and still wrote %s", what, sorted(n for n in after if after[n] != before.get(n)))
    ctx.note(nontrivial=True, tag="%s:%s" % (c["prog"], c["how"]))


# ---------------------------------------------------------------- informational flags

INFO = ["-h", "--help", "-v", "--version", "--list-functions", "--list-parameters", "--sample-config"]


@st.composite
def info_case(draw):
    return dict(prog=draw(st.sampled_from(["imfit", "makeimage", "imfit-mcmc"])), flag=draw(st.sampled_from(INFO)), with_=draw(st.booleans()), order=draw(st.integers(0, 99)))


def run_info(ctx, c):
    w = ctx.worker()
    d = ctx.newdir()
    fits.write(os.path.join(d, "d.fits"), np.full((6, 7), 100.0))
    open(os.path.join(d, "c.dat"), "w").write("NCOLS 7\nNROWS 6\nX0 3 1,6\nY0 3 1,6\nFUNCTION FlatSky\nI_sky  100   50,150\n")
    g = [[c["flag"]]]
    if c["with_"]:
        g += [["c.dat"], ["-o", "o.fits"]] if c["prog"] == "makeimage" else [["d.fits"], ["-c", "c.dat"]]
    a = spelled(np.random.default_rng(c["order"]), g)
    before = p20.files_in(d)
    q = ctx.run(c["prog"], a, d)
    what = "%s %s" % (c["prog"], " ".join(a))
    require(not q.crashed and not q.timeout, "%s crashed: %s", what, q.tail())
    new = set(p20.files_in(d)) - set(before)
    names = w.call("fnames")[0].decode().split()
    params = {n: w.call("fparams", n.encode())[1].decode().split("\n")[:-1] for n in names}
    if c["flag"] == "--sample-config":
        require(len(new) == 1, "%s wrote %s", what, sorted(new))
        text = open(os.path.join(d, new.pop())).read()
        lims = c["prog"] != "makeimage"
        r = w.call("parse", int(lims), 1, text.encode())
        require(r[0] >= 0, "%s: the sample configuration file is not accepted", what)
        fs = r[3].decode().split("\n")[:-1]
        require(len(fs) > 0 and len(r[7]) == sum(len(params[f]) for f in fs) + 2 * len(r[9]), "%s: sample configuration of functions %s has %d parameters", what, fs, len(r[7]))
    else:
        require(not new, "%s wrote %s", what, sorted(new))
    if c["flag"] in ("-h", "--help"):
        for o in {"imfit": ["--config", "--mask", "--noise", "--psf", "--save-params", "--nm", "--de", "--bootstrap"], "makeimage": ["--output", "--refimage", "--psf", "--ncols", "--print-fluxes"], "imfit-mcmc": ["--config", "--nchains", "--max-chain-length", "--append"]}[c["prog"]]:
            require(o in q.out, "%s does not mention %s", what, o)
    elif c["flag"] in ("-v", "--version"):
        require(re.search(r"version \S*\d", q.out), "%s prints no version: %r", what, q.out)
    elif c["flag"] == "--list-functions":
        got = q.out.split()
        require([x for x in got if x in params] == names, "%s lists %s", what, got)
    elif c["flag"] == "--list-parameters":
        blocks = re.split(r"^FUNCTION\s+", q.out, flags=re.M)[1:]
        got = {b.split("\n")[0].split()[0]: [l.split()[0] for l in b.split("\n")[1:] if l.strip() and not l.startswith("#")] for b in blocks}
        require(set(got) == set(params), "%s lists parameters of %s", what, sorted(set(got) ^ set(params)))
        for n in names:
            require(got[n] == [p.split()[0] for p in params[n]], "%s: parameters of %s are %s, listed are %s", what, n, params[n], got[n])
    ctx.note(nontrivial=True, tag=c["flag"])


CHECK = dict(
    property="P19", needs={"opt": (("imfit", "makeimage", "imfit-mcmc"), True)},
    rule="command lines of up to 9 tokens for option tables of up to 9 options; programs with random subsets of their options in random order, spelled with a space or '=', numbers in several notations, detector settings left out, in the configuration file, on the command line or (differing, or not even valid) in both; one defect each for the refusals. Non-trivial when an option has an effect (a setting given on the command line, parameters moved by the fit, several likelihoods checked)",
    assumptions=["a value missing in the middle of a command line takes the next token as the value (negative numbers are legitimate values); it is judged only where no token follows or after '='", "the library (judged by P01-P17) called with the effective settings is the reference for what an option does"],
    components=[
        Component("parser", parser_case(), run_parser, 4000, 200000),
        Component("statistic", stat_case(), run_stat, 500, 20000),
        Component("fit", fit_case(), run_fit, 160, 6000),
        Component("mcmc", mcmc_case(), run_mcmc, 90, 3000),
        Component("refused", reject_case(), run_reject, 700, 20000),
        Component("makeimage", p20.case(), p20.run, 200, 6000),
        Component("makeimage-refused", p20.bad_case(), p20.run_bad, 200, 6000),
        Component("info", info_case(), run_info, 60, 300),
    ])
