"""P09: results do not depend on thread count or on earlier evaluations."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, ref, models as M
from imv.harness import Component, require, close, Violation, Skip
from checks import p06, p07
from checks.p05 import rstr

OPS = ["img", "img", "single", "stat", "stat", "chi2", "cash", "dev", "flux", "exp", "resid", "str"]


@st.composite
def models(draw, maxn, osamp=None, threed=True):
    nx, ny = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    how = draw(st.sampled_from(["plain", "plain", "psf", "points", "osamp"]))
    c = None
    if how in ("points", "osamp"):
        c = draw(p06.case(maxn, osamp=(how == "osamp")))
        c = dict(nx=c["nx"], ny=c["ny"], sets=c["sets"], psf=c["psf"], norm=c["norm"], sub=c["sub"], os=c.get("os", []))
    else:
        names = gens.ALLF if threed and nx * ny <= 120 else gens.FAST
        if threed and draw(st.integers(0, 5)) == 0 and nx * ny <= 120:
            names = ref.THREED
        sets = draw(gens.model(nx, ny, names=list(names), max_sets=3, max_funcs=2, margin=3, total=4))
        c = dict(nx=nx, ny=ny, sets=sets, psf=draw(p07.psf_image(7, 7)) if how == "psf" else None, norm=True, sub=draw(st.booleans()), os=[])
    c["how"] = how
    return c


@st.composite
def case(draw):
    c = draw(models(12))
    nf = sum(len(s[2]) for s in c["sets"])
    c["stat"] = draw(st.sampled_from(["data", "model", "cash", "pmlr"]))
    c["seed"] = draw(st.integers(0, 2**31))
    c["fac"] = [1.0, draw(gens.logfl(0.3, 3)), draw(gens.logfl(0.3, 3))]
    c["shift"] = [0.0, draw(gens.fl(-2, 2)), draw(gens.fl(-1, 1, (0,)))]
    if c["stat"] == "model":      # a trial whose total counts can be negative: its statistic is undefined, but later ones are not affected
        c["fac"].append(draw(st.sampled_from([-1.0, -1000.0, 0.0])))
        c["shift"].append(0.0)
    c["th"] = draw(st.sampled_from([1, 2, 3, 4, 7, 16]))
    c["chunk"] = draw(st.sampled_from([None, 1, 2, 10, 1000]))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        o = draw(st.sampled_from(OPS))
        ops.append([o, draw(st.integers(0, 3 if c["stat"] == "model" else 2)), draw(st.integers(0, nf - 1)) if o == "single" else (draw(st.integers(1, 15)) if o == "flux" else 0), draw(st.integers(1, 15)) if o == "flux" else 0])
    c["ops"] = ops
    return c


def vectors(p, c):
    out = []
    for f, s in zip(c["fac"], c["shift"]):
        q, k = [], 0
        for x0, y0, fs in c["sets"]:
            q += [x0 + s, y0 - s / 2]
            for fn in fs:
                spec = ref.SPEC.get(fn[0]) or ref.POINT[fn[0]]
                q += [v * f if kk in ("I", "S") else v for v, (_, kk) in zip(fn[1], spec)]
        out.append(q)
    return out


def build(w, mid, c, data, th, chunk):
    return M.setup(w, mid, c["nx"], c["ny"], gens.config(c["sets"]), psf=c["psf"], norm=c["norm"], subsample=c["sub"], data=data, chars=[2.0, 3.0, 1.0, 1, 50.0],
                   osamp=[dict(psf=o["psf"], scale=o["scale"], region=rstr(o["reg"], (0, 0)), norm=o["norm"]) for o in c["os"]],
                   stat=None if c["stat"] == "data" else c["stat"], threads=th, chunk=chunk)


def do(w, mid, op, p, c):
    o, _, a, b = op
    n = c["nx"] * c["ny"]
    if o == "img":
        return w.call("mimg", mid, p)[0]
    if o == "single":
        return w.call("msingle", mid, a, p)[0]
    if o == "stat":
        return np.array(w.call("mstatval", mid, p))
    if o == "chi2":
        return np.array(w.call("mchi2", mid, p)) if c["stat"] in ("data", "model") else np.zeros(1)
    if o == "cash":
        return np.array(w.call("mcash", mid, p)) if c["stat"] in ("cash", "pmlr") else np.zeros(1)
    if o == "dev":
        return w.call("mdev", mid, n, p)[0] if c["stat"] != "cash" else np.zeros(1)
    if o == "flux":
        if any(f[0] in ref.POINT for s in c["sets"] for f in s[2]):
            return np.zeros(1)
        if a * b > 40 and any(f[0] in ref.THREED for s in c["sets"] for f in s[2]):
            return np.zeros(1)
        r = w.call("mflux", mid, a, b, p)
        return np.concatenate([[r[0]], r[1]])
    if o == "exp":
        return w.call("mexp", mid, p)[0] if c["psf"] is not None else np.zeros(1)
    if o == "resid":
        w.call("mimg", mid, p)
        return w.call("mresid", mid)[0]
    if o == "str":
        return np.frombuffer(w.call("mstr", mid, 0, p)[0], np.uint8).astype(float)
    raise AssertionError(o)


def run(ctx, c):
    w = ctx.worker()
    nx, ny = c["nx"], c["ny"]
    M.setup(w, 1, nx, ny, gens.config(c["sets"]), psf=c["psf"], norm=c["norm"], subsample=c["sub"])
    p = gens.flat_params(c["sets"])
    base = M.image(w, 1, p, nx, ny)
    M.free(w, 1)
    if not np.isfinite(base).all():
        raise Skip("non-finite model")
    r = np.random.default_rng(c["seed"])
    data = np.abs(base) * r.uniform(0.5, 1.5, (ny, nx)) + 1.0
    vec = vectors(p, c)
    if c["stat"] == "model" and (base + 50 <= 0).any():
        raise Skip("negative model")
    build(w, 1, c, data, c["th"], c["chunk"])
    exact = c["psf"] is None and not c["os"]
    sc0 = 0.0        # size of FFT rounding: relative to the brightest point of the padded model and of the oversampled regions
    if not exact:
        build(w, 2, c, data, 1, None)
        ks = [np.array(q) for q in ([c["psf"]] if c["psf"] is not None else []) + [o["psf"] for o in c["os"]]]
        amp = max(np.abs(q).sum() / min(abs(q.sum()), np.abs(q).sum()) + np.abs(q).sum() for q in ks)
        for v in vec:
            sc0 = max(sc0, float(np.abs(w.call("mexp", 2, v)[0]).max()) if c["psf"] is not None else 0.0, float(np.abs(w.call("mimg", 2, v)[0]).max()))
        for x0, y0, fs in c["sets"]:
            for f in fs:
                sc0 = max(sc0, max([abs(v) for v, (_, kk) in zip(f[1], ref.SPEC.get(f[0]) or ref.POINT[f[0]]) if kk in ("I", "S")] or [0.0]) * 3)
        sc0 *= amp
        M.free(w, 2)
    for k, op in enumerate(c["ops"]):
        got = do(w, 1, op, vec[op[1]], c)
        build(w, 2, c, data, 1, None)
        want = do(w, 2, op, vec[op[1]], c)
        M.free(w, 2)
        what = "%s with parameter vector %d after %s (threads %d, chunk %s)" % (op[0], op[1], [o[:3] for o in c["ops"][:k]], c["th"], c["chunk"])
        same = (got == want) | (np.isnan(got) & np.isnan(want)) if got.shape == want.shape else np.zeros(1, bool)
        if exact and op[0] != "flux":
            if not same.all():
                close(got, want, 0, 0, what)
        elif not same.all():
            with np.errstate(all="ignore"):
                fin = np.isfinite(want)
                require(got.shape == want.shape and bool((np.isfinite(got) == fin).all()), "%s: %s instead of %s", what, got[:5], want[:5])
                g, v = got[fin], want[fin]
                # cancellation in statistics / deviates: relative to a natural scale
                sc = (float(np.max(np.abs(v))) if v.size else 0.0) + 1e-3 * sc0
                if op[0] in ("stat", "cash", "chi2", "dev"):
                    big = float(np.abs(data).sum() + np.abs(base).sum()) * max(map(abs, c["fac"])) + 1
                    sc = max(sc, 1e-3 * big)
                if op[0] == "resid":
                    sc = max(sc, float(np.abs(data).max()))
            close(g, v, 1e-9, 1e-8 * sc if op[0] != "flux" else 1e-10 * sc, what)
    M.free(w, 1)
    ctx.note(nontrivial=len(set(map(str, c["ops"]))) > 1 or c["th"] > 1, tag=c["how"])
    ctx.note(tag="threads:%d" % c["th"])
    ctx.note(tag=c["stat"])


# ---- programs with different --max-threads -------------------------------------------------------------------------
@st.composite
def ccase(draw):
    c = draw(models(24, threed=False))
    c["t1"], c["t2"] = draw(st.sampled_from([1, 2, 5])), draw(st.sampled_from([2, 3, 4, 8]))
    c["flux"] = draw(st.booleans())
    c["imfit"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 2**31))
    return c


def cli_files(d, c, limits=None):
    a = []
    if c["psf"] is not None:
        fits.write(os.path.join(d, "psf.fits"), np.array(c["psf"]))
        a += ["--psf", "psf.fits"] + ([] if c["norm"] else ["--no-normalize"])
    for k, o in enumerate(c["os"]):
        fits.write(os.path.join(d, "os%d.fits" % k), np.array(o["psf"]))
        a += ["--overpsf", "os%d.fits" % k, "--overpsf_scale", str(o["scale"]), "--overpsf_region", rstr(o["reg"], (0, 0))]
    if not c["sub"]:
        a.append("--no-subsampling")
    return a


def run_cli(ctx, c):
    d = ctx.newdir()
    a = cli_files(d, c)
    cfg = gens.config(c["sets"], header=["NCOLS %d" % c["nx"], "NROWS %d" % c["ny"]])
    open(os.path.join(d, "c.dat"), "w").write(cfg)
    out = []
    for k, t in enumerate((c["t1"], c["t2"])):
        r = ctx.run("makeimage", ["c.dat", "-o", "o%d.fits" % k, "--max-threads", t] + a, d)
        require(not r.crashed, "makeimage crashed with %d threads: %s", t, r.tail())
        out.append((r.rc, fits.read(os.path.join(d, "o%d.fits" % k))[0] if r.rc == 0 else None))
    require(out[0][0] == out[1][0], "makeimage exit status %s with %d threads, %s with %d", out[0][0], c["t1"], out[1][0], c["t2"])
    if out[0][0] != 0:
        raise Skip("rejected")
    x, y = out[0][1], out[1][1]
    sc = float(np.abs(x).max()) if np.isfinite(x).all() else 0
    exact = c["psf"] is None and not c["os"]
    close(y, x, 0 if exact else 3e-7, 0 if exact else 1e-9 * sc, "makeimage output with %d threads compared with %d" % (c["t2"], c["t1"]))
    if c["imfit"] and np.isfinite(x).all():
        rng = np.random.default_rng(c["seed"])
        data = x + 0.05 * rng.normal(0, 1, x.shape) * (np.abs(x) + 0.01 * sc + 1e-3)
        fits.write(os.path.join(d, "d.fits"), data)
        res = []
        for t in (c["t1"], c["t2"]):
            r = ctx.run("imfit", ["d.fits", "-c", "c.dat", "--sky", repr(2 * sc + 100), "--fitstat-only", "--max-threads", t] + a, d)
            require(r.rc == 0, "imfit failed with %d threads: %s", t, r.tail())
            m = re.search(r"CHI-SQUARE = (\S+)", r.out)
            res.append(float(m.group(1)))
        require(abs(res[0] - res[1]) <= (0 if exact else 1e-6 + 1e-6 * abs(res[0])), "imfit chi^2 %r with %d threads, %r with %d", res[0], c["t1"], res[1], c["t2"])
    ctx.note(nontrivial=c["nx"] * c["ny"] > 1, tag=c["how"])


# ---- data races in the evaluation of image functions ---------------------------------------------------------------
def races(err):
    """ThreadSanitizer reports in which both accesses are made by image-function code inside a parallel region."""
    out = []
    for blk in err.split("==================\n"):
        if "WARNING: ThreadSanitizer: data race" not in blk or "[failed to restore" in blk:
            continue
        parts = re.split(r"\n\n", blk)
        acc = [x for x in parts if re.search(r"^\s*(WARNING: ThreadSanitizer[^\n]*\n\s*)?(Previous )?(atomic )?(Read|Write|read|write) of size|(^|\n)\s*(Previous )?(Read|Write|read|write) of size", x)]
        if len(acc) < 2:
            continue
        if all("_omp_fn" in x and "GetValue" in x for x in acc[:2]):
            out.append(blk[:1500])
    return out


@st.composite
def tcase(draw):
    c = draw(models(9))
    c["th"] = draw(st.sampled_from([2, 3, 4]))
    return c


def run_tsan(ctx, c):
    d = ctx.newdir()
    a = cli_files(d, c)
    open(os.path.join(d, "c.dat"), "w").write(gens.config(c["sets"], header=["NCOLS %d" % c["nx"], "NROWS %d" % c["ny"]]))
    r = ctx.run("makeimage", ["c.dat", "-o", "o.fits", "--max-threads", c["th"]] + a, d, cfg="tsan", env={"TSAN_OPTIONS": "exitcode=0 history_size=3 halt_on_error=0"}, cpu=200)
    if "FATAL: ThreadSanitizer" in r.err:
        raise Skip("ThreadSanitizer cannot run here")
    rc = races(r.err)
    require(not rc, "data race between threads evaluating the model:\n%s", rc[0] if rc else "")
    # the single-function and the flux loops
    if not any(f[0] in ref.POINT or f[0] in ref.THREED for s in c["sets"] for f in s[2]):
        r = ctx.run("makeimage", ["c.dat", "--output-functions", "f", "--print-fluxes", "--estimation-size", "8", "--max-threads", c["th"]] + a, d, cfg="tsan", env={"TSAN_OPTIONS": "exitcode=0 history_size=3"}, cpu=200)
        rc = races(r.err)
        require(not rc, "data race between threads evaluating a function:\n%s", rc[0] if rc else "")
    ctx.note(nontrivial=r.rc == 0 and c["nx"] * c["ny"] > 10, tag=c["how"])
    for s in c["sets"]:
        for f in s[2]:
            ctx.note(tag="f:" + f[0])


ONE = [dict(nx=6, ny=5, how="each", th=4, sub=True, os=[], norm=True, psf=[[0.1] * 5] * 2 + [[0.1, 0.5, 1.0, 0.4, 0.1]] + [[0.1] * 5] * 2,
            sets=[[3.2, 2.7, [[n, [dict(PA=30.0, ell=0.3, ell8=0.3, I=10.0, S=5.0, R=2.0, R3=3.0, Rz=1.0, rb=0.6, c0=0.2, sersicn=2.0, alphacs=5.0, gamma=0.4, alpha=2.0, beta=2.5, kingalpha=2.0, kingc=5.0,
                                        slope=0.1, ferrersn=2.0, ferrersn3=2.0, dpa=30.0, unit=0.5, vertn=3.0, inc=60.0, axratio=0.5, cbar=2.0)[k] for _, k in (ref.SPEC.get(n) or ref.POINT[n])]]]]])
       for n in gens.ALLF + ["PointSource", "PointSourceRot"]]

CHECK = dict(
    property="P09", needs={"opt": (("makeimage", "imfit"), True), "tsan": (("makeimage",), False)},
    rule="history: a model (plain, with PSF, with point sources, with oversampled regions), a thread count and chunk size, and a sequence of 2-9 evaluations (images, single functions, statistics, deviates, fluxes) with three parameter vectors on one object, each compared with a fresh single-threaded object evaluating only that; non-trivial when operations differ or several threads are used.  threads: the programs with two thread counts.  races: the model evaluated under ThreadSanitizer",
    assumptions=["bootstrap switches are not part of the history", "ThreadSanitizer reports count only when both accesses are made under an image function's GetValue inside a parallel region (the OpenMP runtime is not instrumented)"],
    components=[
        Component("history", case(), run, 2500, 80000),
        Component("threads", ccase(), run_cli, 300, 8000),
        Component("races", tcase(), run_tsan, 120, 4000, exhaustive=ONE),
    ])
