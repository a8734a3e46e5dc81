"""P15: every solver respects limits, keeps fixed values and never returns a worse fit than its start."""
import os, re
import numpy as np
from hypothesis import strategies as st
from imv import gens, fits, ref, fitgen as F, models as M, statref as S
from imv.harness import Component, require, Violation, Skip

ID = {"lm": 1, "de": 2, "de-lhs": 2, "nm": 3}
NLOPT = ["COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"]
ALL = ["lm", "lm", "lm", "nm", "nm", "de", "de-lhs"] + NLOPT


def solver_args(sol):
    return [ID.get(sol, 5), sol.encode() if sol in NLOPT else b""]


def pinfo(P):
    out = []
    for l in P.lims:
        if l == "fixed":
            out += [1, 0, 0, 0.0, 0.0]
        elif l is None:
            out += [0, 0, 0, 0.0, 0.0]
        else:
            out += [0, 1, 1, l[0], l[1]]
    return out


def solve(w, mid, sol, ftol, seed, start, info, gen_id):
    return w.call("msolve", mid, gen_id if sol in NLOPT else ID[sol], float(ftol), seed, int(sol == "de-lhs"), sol.encode() if sol in NLOPT else b"", list(start), list(info))


@st.composite
def case(draw):
    sol = draw(st.sampled_from(ALL))
    de = sol.startswith("de")
    c = draw(F.scene(maxn=6 if de else 8, section=False, limits="all" if de else "mixed", total=1 if de else 3, fixed=0.5 if de else 0.25, masks=("none", "none", "some"), psf=sol in ("lm", "nm")))
    if c["kind"] == "cash" and sol == "lm":
        sol = "nm"
    c["sol"] = sol
    if sol != "lm" or c["psf"]:
        c["sub"] = False
    c["ftol"] = draw(st.sampled_from([1e-8, 1e-4, 1e-6, 1e-2]))
    c["edge"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["tight"] = draw(st.sampled_from([0, 0, 0, 1]))
    c["rs"] = draw(st.integers(1, 10 ** 6))
    c["th"] = draw(st.sampled_from([1, 1, 1, 2])) if sol == "lm" else 1
    return c


def start_on_edges(c, P):
    """Moves some starting values onto a limit, narrows some limits so that the optimum lies outside."""
    r = np.random.default_rng(c["seed"] + 31)
    for k, l in enumerate(P.lims):
        if l in (None, "fixed"):
            continue
        lo, hi = l
        if c["tight"] and r.random() < 0.6:
            t = P.truth[k]
            h = F.HARD.get(P.kinds[k])
            wd = abs(t) * 0.2 + 0.05
            if r.random() < 0.5:
                lo, hi = t + 0.1 * wd, t + wd
            else:
                lo, hi = t - wd, t - 0.1 * wd
            if h:
                lo, hi = max(lo, h[0] + 1e-6), min(hi, h[1] - 1e-6)
            if not lo < hi:
                lo, hi = l
        s = min(max(P.start[k], lo), hi)
        if c["edge"] and r.random() < 0.5:
            s = lo if r.random() < 0.5 else hi
        P.start[k], P.lims[k] = s, (lo, hi)


def check_result(what, P, p, start):
    for k, l in enumerate(P.lims):
        if l == "fixed":
            require(p[k] == start[k], "%s: fixed parameter %d changed from %r to %r", what, k, start[k], p[k])
        elif l is not None:
            e = 4e-16 * max(abs(l[0]), abs(l[1]))
            require(l[0] - e <= p[k] <= l[1] + e, "%s: parameter %d ended at %r, outside its limits %r .. %r", what, k, p[k], l[0], l[1])


def run(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    start_on_edges(c, P)
    sol = c["sol"]
    F.fit_library(w, 3, c, P, sets=F.with_values(c["sets"], P.start))
    w.call("mthreads", 3, c["th"])
    s0 = F.stat_of(w, 3, c, P, P.start)
    i0 = M.image(w, 3, list(P.start), c["nx"], c["ny"])
    if not np.isfinite(s0) or not F.in_domain(c, P, i0) or int(P.good.sum()) - P.nfree <= 1:
        M.free(w, 3)
        raise Skip("undefined at the start")
    status, f, rep, errs, p, e, init = solve(w, 3, sol, c["ftol"], c["rs"], P.start, pinfo(P), GEN)
    what = "%s, %s, %d free of %d" % (sol, c["kind"], P.nfree, len(P.start))
    require(np.isfinite(p).all(), "%s: best-fit parameters %s", what, p)
    check_result(what, P, p, P.start)
    img = M.image(w, 3, list(p), c["nx"], c["ny"])
    f2 = F.stat_of(w, 3, c, P, p)
    mag = 1.0
    if c["kind"] in ("cash", "pmlr"):
        t, m = S.terms(c["kind"], P.data, np.where(np.isfinite(img), img, 1.0), c["ch"], P.err)
        mag = float(np.abs(m[P.good]).sum())
    eps = 1e-11 * (mag + abs(s0) + abs(f))
    refused = sol == "NEWUOA" and P.nfree == 1 and status == -2     # the algorithm needs two free parameters, and says so
    if refused:
        require(np.array_equal(p, P.start), "%s: refused, but parameters changed", what)
        ctx.note(tag="refused (NEWUOA, 1 free)")
        M.free(w, 3)
        return
    require(status not in (-1, -2, -3, -100), "%s: solver status %d for valid starting values and limits", what, status)
    ok = np.isfinite(f) and np.isfinite(rep) and F.in_domain(c, P, img)
    if ok:
        require(abs(f - f2) <= eps, "%s: two evaluations of the best fit give %r and %r", what, f, f2)
        require(abs(rep - f) <= eps + 1e-9 * abs(f), "%s: reported final statistic %r, evaluating the best-fit parameters gives %r", what, rep, f)
        if not sol.startswith("de"):
            require(f <= s0 + eps + 1e-9 * abs(s0), "%s: final statistic %r is worse than %r at the start", what, f, s0)
            require(abs(init - s0) <= eps + 1e-9 * abs(s0), "%s: initial statistic reported as %r, it is %r", what, init, s0)
    elif not sol.startswith("de"):
        require(not np.isfinite(rep) or not np.isfinite(f) or f <= s0 + eps + 1e-9 * abs(s0), "%s: final statistic %r, at the start it is %r", what, f, s0)
    # same call again: deterministic solvers and seeded ones give the same parameters
    r2 = solve(w, 3, sol, c["ftol"], c["rs"], P.start, pinfo(P), GEN)
    if c["th"] == 1 and c["psf"] is None:
        require(np.array_equal(r2[4], p), "%s: the same fit repeated%s gives %s, first %s", what, " with the same seed" if sol.startswith("de") else "", list(r2[4]), list(p))
    else:
        check_result(what + ", repeated", P, r2[4], P.start)
    M.free(w, 3)
    ctx.note(nontrivial=ok and not np.array_equal(p, P.start), tag=sol)
    ctx.note(tag=c["kind"])
    if any(l not in (None, "fixed") and (p[k] == l[0] or p[k] == l[1]) for k, l in enumerate(P.lims)):
        ctx.note(tag="ends on a limit")
    if any(l not in (None, "fixed") and (P.start[k] == l[0] or P.start[k] == l[1]) for k, l in enumerate(P.lims)):
        ctx.note(tag="starts on a limit")
    if P.nfree == 1:
        ctx.note(tag="one free parameter")


GEN = 5

# -- recovery of the generating parameters
SIMPLE = ["Gaussian", "Exponential", "Sersic", "Moffat", "GaussianRing", "EdgeOnRing"]


@st.composite
def recover_case(draw):
    sol = draw(st.sampled_from(["lm", "lm", "lm", "nm", "BOBYQA", "de", "de-lhs", "SBPLX"]))
    de = sol.startswith("de")
    f = draw(st.sampled_from(SIMPLE))
    c = dict(nx=draw(st.integers(14, 18)), ny=draw(st.integers(14, 18)), sol=sol, seed=draw(st.integers(0, 10 ** 6)), sub=False, psf=None, sky=draw(st.booleans()), f=f, mfmt=10, kind=draw(st.sampled_from(["sigma", "sigma", "data", "model", "pmlr"])),
             ch=[1.0, 0.0, 1.0, 1, 20.0], fixed=draw(st.integers(0, 4 if not de else 0)), scale=draw(st.sampled_from([0.02, 0.05])))
    c["u"] = [draw(st.integers(0, 1000)) / 1000 for _ in range(12)]
    return c


RANGE = {"x": (6.0, 9.0), "y": (6.0, 9.0), "PA": (20, 160), "ell": (0.2, 0.5), "I": (100, 800), "R": (2.0, 3.5), "sersicn": (0.8, 2.5), "beta": (2.0, 4.0), "Rz": (1.5, 3)}


def run_recover(ctx, c):
    w = ctx.worker()
    u = iter(c["u"])
    f = c["f"]
    val = lambda k: float("%.6g" % (RANGE[k][0] + next(u) * (RANGE[k][1] - RANGE[k][0])))
    x0, y0 = val("x"), val("y")
    spec = ref.SPEC[f]
    ks = [k for _, k in spec]
    sets = [[x0, y0, [[f, [val(k) if k in RANGE else val("R") for k in ks], {}]]]]
    kinds = ["x", "y"] + ks
    if f in ("GaussianRing", "EdgeOnRing"):
        # ring radius clearly larger than its width
        sets[0][2][0][1][2 if f == "EdgeOnRing" else 3] += 2.0
        if f == "EdgeOnRing":
            sets[0][2][0][1][3] = 1.2
            sets[0][2][0][1][4] = 1.0
        else:
            sets[0][2][0][1][4] = 1.0
    if c["sky"]:
        sets[0][2].append(["FlatSky", [float("%.5g" % (5 + 40 * next(u)))], {}])
        kinds.append("S")
    c = dict(c, sets=sets)
    truth = gens.flat_params(sets)
    w_ = F.library(w, 90, c)
    img = M.image(w, 90, truth, c["nx"], c["ny"])
    M.free(w, 90)
    r = np.random.default_rng(c["seed"])
    n = len(truth)
    wd = [0.5 if k in "xy" else 20.0 if k == "PA" else 0.15 if k == "ell" else 0.3 * abs(v) for k, v in zip(kinds, truth)]
    P = F.Problem()
    P.data, P.good, P.mask, P.truth, P.kinds = img, np.ones_like(img, bool), None, truth, kinds
    P.err = np.sqrt(np.maximum(img, 1)) if c["kind"] == "sigma" else None
    P.lims = [(v - d, v + d) for v, d in zip(truth, wd)]
    P.start = [v + d * c["scale"] * r.uniform(-1, 1) for v, d in zip(truth, wd)]
    for k in r.permutation(n)[:min(c["fixed"], n - 1)]:
        P.lims[k], P.start[k] = "fixed", truth[k]
    if c["sol"].startswith("de"):
        for k in r.permutation(n)[:n - 3]:
            P.lims[k], P.start[k] = "fixed", truth[k]
    P.nfree = sum(l != "fixed" for l in P.lims)
    F.fit_library(w, 3, c, P, sets=F.with_values(sets, P.start))
    s0 = F.stat_of(w, 3, c, P, P.start)
    res = solve(w, 3, c["sol"], 1e-12, 17, P.start, pinfo(P), GEN)
    M.free(w, 3)
    p = res[4]
    tol = 1e-4 if c["sol"] == "lm" else 2e-3
    what = "%s, %s, %s%s, noise-free data" % (c["sol"], c["kind"], f, " + FlatSky" if c["sky"] else "")
    check_result(what, P, p, P.start)
    for k in range(n):
        if P.lims[k] != "fixed":
            require(abs(p[k] - truth[k]) <= tol * wd[k] * 3, "%s: parameter %d (%s) ended at %r; the data were generated with %r (started at %r)", what, k, kinds[k], p[k], truth[k], P.start[k])
    ctx.note(nontrivial=s0 > 1e-9, tag=c["sol"])
    ctx.note(tag=f)


# -- the programs
CLI = [[], ["--nm"], ["--de"], ["--de-lhs"]] + [["--nlopt", n] for n in NLOPT]


@st.composite
def cli_case(draw):
    sol = draw(st.sampled_from(CLI + [["--de"], ["--de-lhs"], ["--de-lhs"]]))
    de = sol[:1] in (["--de"], ["--de-lhs"])
    c = draw(F.scene(maxn=6, section=False, limits="all" if de else "mixed", total=1 if de else 2, fixed=0.55 if de else 0.3, psf=False))
    if c["kind"] == "cash" and not sol:
        sol = ["--nm"]
    c["sol"] = sol
    c["rs"] = draw(st.integers(1, 10 ** 9))
    c["ftol"] = draw(st.sampled_from([None, "1e-5", "0.001", "1e-10"]))
    return c


def run_cli(ctx, c):
    w = ctx.worker()
    P = F.realise(w, c)
    if int(P.good.sum()) - P.nfree <= 1:
        raise Skip("few pixels")
    what = "imfit %s, %s" % (" ".join(c["sol"]) or "(LM)", c["kind"])
    outs = []
    for k in range(2):
        d = ctx.newdir()
        data, opts = F.files(d, c, P)
        open(os.path.join(d, "c.dat"), "w").write(F.start_config(c, P))
        q = ctx.run("imfit", [data, "-c", "c.dat", "--max-threads", "1", "--seed", c["rs"]] + opts + c["sol"] + (["--ftol", c["ftol"]] if c["ftol"] else []) + ["--save-params", "p.dat", "--save-model", "m.fits"], d, cpu=10)
        if q.timeout:
            raise Skip("slow fit")
        require(not q.crashed, "%s crashed: %s", what, q.tail())
        outs.append((d, q))
    a, b = outs[0][1], outs[1][1]
    require(a.rc == b.rc, "%s: exit status %d, repeated %d", what, a.rc, b.rc)
    if a.rc:
        s0 = re.search("Reading|limits", a.out + a.err)
        raise Skip("refused")
    if re.search(r"nan|forced termination", a.out):
        raise Skip("undefined values")
    if c["sol"] == ["--nlopt", "NEWUOA"] and P.nfree == 1:
        require("ERROR: invalid arguments" in a.out, "%s with one free parameter does not report that the solver needs two", what)
        return
    ta, tb = (F.body_lines(open(os.path.join(d, "p.dat")).read()) for d, _ in outs)
    require(ta == tb, "%s: two runs%s give different best fits\n%s\n%s", what, " with the same seed" if c["sol"] and "de" in c["sol"][0] else "", "\n".join(ta), "\n".join(tb))
    ia, ib = (fits.read(os.path.join(d, "m.fits"))[0] for d, _ in outs)
    require(np.array_equal(ia, ib), "%s: two runs save different model images", what)
    R = F.printed(a.out, c)
    d = outs[0][0]
    data, opts = F.files(d, c, P)
    q = ctx.run("imfit", [data, "-c", "c.dat", "--fitstat-only", "--max-threads", "1"] + opts, d)
    require(q.rc == 0, "%s: --fitstat-only fails: %s", what, q.tail())
    m = re.findall(r"^\s*%s = (\S+)" % F.TITLE.get(c["kind"], "CHI-SQUARE"), q.out, re.M)
    s0 = float(m[0])
    if np.isfinite(s0) and not (c["sol"] and c["sol"][0].startswith("--de")):
        require(R["stat"] <= s0 + 2e-6 + 1e-9 * abs(s0), "%s: reports %r as its best fit; the starting values have %r", what, R["stat"], s0)
    vals = [float(l.split()[1]) for l in ta if not l.startswith(("FUNCTION", "OPTIONAL", "method"))]
    require(len(vals) == len(P.start), "%s: %d parameters saved of %d", what, len(vals), len(P.start))
    for k, (v, l) in enumerate(zip(vals, P.lims)):
        h = F.half_ulp(v, P.kinds[k]) * 1.01 + 1e-9 * abs(v)
        if l == "fixed":
            require(abs(v - P.start[k]) <= h, "%s: fixed parameter %d is %r, set to %r", what, k, v, P.start[k])
        elif l is not None:
            require(l[0] - h <= v <= l[1] + h, "%s: parameter %d ended at %r, outside %s", what, k, v, l)
    ctx.note(nontrivial=True, tag=" ".join(c["sol"]) or "lm")
    ctx.note(tag=c["kind"])


CHECK = dict(
    property="P15", needs={"opt": (("imfit",), True)},
    rule="a case is a generated scene (functions, limits, fixed parameters, statistic, mask, errors, PSF) handed to one of the ten solvers, with starting values inside or exactly on the limits and sometimes limits which exclude the optimum; or noise-free data with a start near the truth; or the same through imfit. Non-trivial when the solver moved away from the start (recovery: when the start is not the optimum already)",
    assumptions=["limits may be exceeded by rounding (4e-16 relative)",
                 "'no worse than the start' is required to 1e-9 relative; runs in which the statistic becomes undefined are judged on limits and fixed values only",
                 "recovery is judged on well-resolved single components, with a tolerance of 1e-4 (Levenberg-Marquardt) or 2e-3 of the allowed range"],
    components=[
        Component("solve", case(), run, 700, 30000),
        Component("recover", recover_case(), run_recover, 120, 5000),
        Component("cli", cli_case(), run_cli, 80, 4000),
    ])
